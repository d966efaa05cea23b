"""C04: permutation individuals stay permutations."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['OrderCatPopulation.get_generated_individ/fill', 'OrderCrossover.execute/crossover/get_idx_segment',
             'SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation',
             'BaseCombinatoryMutation.execute/determines_mutation']
BOUNDS = ('order crossover: length 3..5 with every second parent (symbolic), up to 20 with fixed parents; mutations: '
          'length 3..8, 14 and 20 (quick), 3..16 and 20 (thorough); all draws symbolic')
ASSUMPTIONS = ['order crossover and shift mutation need >= 3 genes, the other mutations >= 2 (below that they raise)']
MUT = ['SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation']


def _c(name):
    import baumeva.ga as g
    return getattr(g, name)


def _order_pop(genotypes, lo, hi):
    return cat_pop(genotypes, gens=(lo, hi, len(genotypes[0])), cls=_c('OrderCatPopulation'))


def generated(ctx, lo, width, k, n):
    """initial individuals: k distinct values of the declared range"""
    a = ctx.int('lo', lo, lo + 3)
    a = ctx.concrete(a)
    pop = _c('OrderCatPopulation')()
    pop.set_params(num_individ=n, gens=(a, a + width - 1, k))
    pop.fill()
    ctx.check(len(pop) == n, 'the population has the requested size')
    for ind in pop:
        g = ind['genotype']
        ctx.check(len(g) == k, 'an individual has the requested number of values')
        ctx.check(And(all_distinct(g), *[And(x >= a, x <= a + width - 1) for x in g]),
                  'generated values are distinct and inside the declared range')
    ctx.observe('pop', genos(pop))
    ctx.must_cover('first value can be the minimum', 'first value can be the maximum')
    ctx.cover('first value can be the minimum', eq(pop[0]['genotype'][0], a))
    ctx.cover('first value can be the maximum', eq(pop[0]['genotype'][0], a + width - 1))


def order_cross(ctx, L, subset=0):
    """p1 fixed by relabelling, p2 any arrangement of L distinct values of the declared set"""
    p1 = list(range(L))
    p2 = [ctx.int(f'q{i}', 0, L - 1 + subset) for i in range(L)]
    ctx.assume(all_distinct(p2))
    d = ga(_order_pop([p1, p2], 0, L - 1 + subset))
    set_parents(d, [0, 1])
    _c('OrderCrossover')().execute(d)
    ctx.check(len(d.children) == 1, 'one child per pair')
    c = d.children[0]['genotype']
    ctx.check(len(c) == L, 'child has the length of its parents')
    ctx.check(And(all_distinct(c), *[And(x >= 0, x <= L - 1 + subset) for x in c]),
              'child holds distinct values of the declared set')
    if subset == 0:
        ctx.check(same_multiset(c, p1), 'child is a permutation of the same values')
    ctx.observe('child', list(c))


def order_cross_fixed(ctx, p1, p2):
    d = ga(_order_pop([p1, p2], min(p1), max(p1)))
    set_parents(d, [0, 1])
    _c('OrderCrossover')().execute(d)
    c = d.children[0]['genotype']
    ctx.check(sorted(c) == sorted(p1), 'child is a permutation of the same values')
    ctx.observe('child', list(c))


def mutate(ctx, op, L, n=1):
    """any genotype (values symbolic, repeated values allowed), any draws"""
    gs = [[ctx.int(f'g{r}_{i}', 0, 1000) for i in range(L)] for r in range(n)]
    d = ga(_order_pop([list(range(L))] * n, 0, 1000))
    d.children = d.population.get_empty_copy()
    for g in gs:
        c = d.population.get_empty_individ()
        c['genotype'] = list(g)
        d.children.append(c)
    _c(op)(mutation_lvl=0.5).execute(d)
    ctx.check(len(d.children) == n, 'mutation keeps the number of children')
    for g, c in zip(gs, d.children):
        ctx.check(same_multiset(c['genotype'], g), f'{op} only rearranges the genes')
    ctx.observe('children', genos(d.children))
    if n == 1:
        ctx.must_cover('mutated', 'not mutated')
        ctx.cover('mutated', ne(list(d.children[0]['genotype']), gs[0]))
        ctx.cover('not mutated', And(eq(list(d.children[0]['genotype']), gs[0]), all_distinct(gs[0])))


def generations(ctx, L, mut, seed):
    """whole runs: every individual ever evaluated is a permutation, whatever the objective says"""
    from baumeva.ga import (OrderCatPopulation, HyperbolaFitness, TournamentSelection, OrderCrossover, NewGeneration)
    from baumeva import CollectorGA
    f = ctx.func('f', lambda n: ctx.real(n, 0, 10))
    ctx.stream(seed)
    g = CollectorGA(fitness=HyperbolaFitness(obj_function=f, obj_value=0), selection=TournamentSelection(2),
                    crossover=OrderCrossover(), mutation=_c(mut)(mutation_lvl=0.7),
                    new_generation=NewGeneration('random' if seed % 2 else 'best'))
    g.set_population(OrderCatPopulation, num_individ=4, num_generations=4, gens=(1, L, L), early_stop=10)
    g.optimize()
    for a in f.calls:
        ctx.check(sorted(a) == list(range(1, L + 1)), 'every evaluated individual is a permutation')
    ctx.observe('calls', [list(a) for a in f.calls])


def jobs(tier):
    big = tier == 'thorough'
    J = [dict(func='generated', cfg=dict(lo=-1, width=4, k=4, n=1)), dict(func='generated', cfg=dict(lo=0, width=6, k=3, n=2)),
         dict(func='order_cross', cfg=dict(L=3)), dict(func='order_cross', cfg=dict(L=4), cost=4),
         dict(func='order_cross', cfg=dict(L=3, subset=2), cost=5), dict(func='order_cross', cfg=dict(L=4, subset=1), cost=9,
                                                                        limits=dict(time=30 if not big else 600)),
         dict(func='order_cross', cfg=dict(L=5), cost=20, limits=dict(time=60 if not big else 600))]
    if big:
        J.append(dict(func='order_cross', cfg=dict(L=6), cost=50, limits=dict(time=3000)))
    for w in sizes([60, 1500, 20000], 30, 50000):
        J.append(dict(func='generated', cfg=dict(lo=-3, width=w, k=3, n=1), cost=2, limits=dict(time=30)))
    for k in sizes([12, 40], 7, 110):
        J.append(dict(func='generated', cfg=dict(lo=0, width=k, k=k, n=1), cost=2, limits=dict(time=60)))
        J.append(dict(func='generated', cfg=dict(lo=0, width=k + 5, k=k, n=1), cost=2, limits=dict(time=60)))
    for L in sizes([6, 7, 9, 14, 20], 3, 30):
        p = list(range(L))
        for q in (p[::-1], p[2:] + p[:2], p[::2] + p[1::2], p):
            J.append(dict(func='order_cross_fixed', cfg=dict(p1=p, p2=q), cost=3, limits=dict(time=40)))
    for op in MUT:
        for L in sizes(list(range(3, 17 if big else 9)) + [14, 20], 2 if op != 'ShiftMutation' else 3, 30):
            J.append(dict(func='mutate', cfg=dict(op=op, L=L), cost=2, limits=dict(time=60 if L < 14 or big else 15)))
        J.append(dict(func='mutate', cfg=dict(op=op, L=3, n=2), cost=3))
        for s in range(4 if big else 1):
            J.append(dict(func='generations', cfg=dict(L=4, mut=op, seed=s + MUT.index(op)), cost=10,
                          limits=dict(time=8 if not big else 120, validate=6)))
    J += soak_jobs('C04', tier, kinds=('ord', 'swap'))
    return J
