"""C08: breeding never disturbs individuals that are already evaluated."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['all selections.execute', 'all crossovers.execute', 'all mutations.execute', 'NewGeneration.execute',
             'MultiNewGeneration.execute', 'BasePopulation.get_empty_individ/get_empty_copy', 'BaseFitness.execute']
BOUNDS = ('populations of 3..4 evaluated individuals, genotypes symbolic (2..4 genes, duplicates included), one full '
          'selection-crossover-mutation-replacement-evaluation cycle; draws of crossover and mutation symbolic, those of '
          'selection from fixed streams, or the other way round')
ASSUMPTIONS = []


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def build(ctx, kind, n, L, symbolic, pct):
    """evaluated population; returns ga_data"""
    multi = kind in ('vega', 'ffga')
    if kind in ('bin', 'gray', 'vega', 'ffga'):
        gens = tuple((0, 1, 1) for _ in range(L)) if L < 4 else ((0, 3, 1), (-1.0, 1.0, 0.5))
        ctx.quiet()
        pop = bin_pop(n, gens, kind == 'gray')
        ctx.quiet(False)
        L = len(pop[0]['genotype'])
        for k, ind in enumerate(pop):
            ind['genotype'] = ctx.bits(f'b{k}', L) if symbolic else list(format((5 * k + 2) % 2 ** L, f'0{L}b'))
            ind['phenotype'] = None
        if not symbolic:
            pop.get_phenotype()
        else:
            for k, ind in enumerate(pop):
                ind['phenotype'] = [float(k)] * len(gens)
    elif kind == 'cat':
        gens = tuple(['a', 'b', 'c'] if i % 2 == 0 else (0, 4, 2) for i in range(L))
        pop = cat_pop([[ctx.choose(f'c{k}_{i}', ['a', 'b'] if i % 2 == 0 else [0, 2]) if symbolic else ('a' if i % 2 == 0 else 2)
                        for i in range(L)] for k in range(n)], gens=gens)
    else:
        pop = cat_pop([(list(range(k % L, L)) + list(range(k % L))) for k in range(n)], gens=(0, L - 1, L),
                      cls=_g('OrderCatPopulation'))
    for k, ind in enumerate(pop):
        s = [3.0, 1.0, 2.0, 2.0][k % 4]
        if kind == 'vega':
            ind['score'], ind['obj_score'], ind['rank'] = [s, 4.0 - s], [1 - s, s - 3], 1 + k % 2
        elif kind == 'ffga':
            ind['rank'] = 1 + k % 2
            ind['score'], ind['obj_score'] = 1.0 / (1 + ind['rank']), [s, 4.0 - s]
        else:
            ind['score'], ind['obj_score'] = s, 7 - s
        ind['feasible'] = k % 2 == 0
    d = ga(pop, children_percent=pct, multi=multi)
    return d


def unchanged(ctx, when, inds, snaps, pop):
    for ind, s in zip(inds, snaps):
        ctx.check(same_rec(snap(ind), s), f'{when} leaves evaluated individuals unchanged')
    ctx.check(len(pop) == len(snaps), f'{when} keeps the population')
    for ind in pop:
        ctx.check(Or([same_rec(snap(ind), s) for s in snaps]), f'{when} leaves evaluated individuals unchanged')


def independent(ctx, kids, others, when):
    """changing one child in place affects nobody else"""
    for i, c in enumerate(kids):
        rest = others + [x for j, x in enumerate(kids) if j != i]
        before = [list(x['genotype']) for x in rest]
        g = c['genotype']
        old = g[0]
        g[0] = 'changed'
        ok = all(x['genotype'] is not g and not (type(x['genotype'][0]) is str and x['genotype'][0] == 'changed')
                 for x in rest)
        g[0] = old
        del before
        ctx.check(ok, f'children are independent {when}')


def cycle(ctx, kind, sel, cross, mut, n, L, symbolic, seed, lvl, freesel=False, mode='best', cond=False, pairs=2):
    multi = 2 if kind == 'vega' else 1
    d = build(ctx, kind, n, L, symbolic, (pairs * multi + 0.01) / n)
    pop = d.population
    inds = list(pop)
    snaps = [snap(i) for i in inds]
    args = {'VEGATournamentSelection': (2, 2), 'VEGABalancedSelection': (2,), 'VEGARankedSelection': (2,),
            'TournamentSelection': (2,)}.get(sel, ())
    if not freesel:
        ctx.stream(seed)
    _g(sel)(*args).execute(d)
    if not freesel:
        ctx.quiet(False)
    else:
        ctx.stream(seed)
    unchanged(ctx, 'selection', inds, snaps, d.population)
    for p in d.parents:
        ctx.check(Or([same_rec(snap(p), s) for s in snaps]), 'a parent is a copy of an evaluated individual')
    parents = list(d.parents)
    psnaps = [snap(p) for p in parents]
    _g(cross)().execute(d)
    unchanged(ctx, 'crossover', inds, snaps, d.population)

    def fresh(when):
        for c in d.children:
            ctx.check(And(c['score'] is None, c['obj_score'] is None, c['feasible'] is True,
                          'phenotype' not in c or c['phenotype'] is None), f'children are unevaluated {when}')
    fresh('after crossover')
    independent(ctx, list(d.children), inds + parents, 'after crossover')
    _g(mut)(mutation_lvl=lvl).execute(d)
    unchanged(ctx, 'mutation', inds, snaps, d.population)
    for p, s in zip(parents, psnaps):
        ctx.check(same_rec(snap(p), s), 'mutation leaves the parents unchanged')
    fresh('after mutation')
    kids = list(d.children)
    ksnaps = [snap(c) for c in kids]
    independent(ctx, kids, inds + parents, 'after mutation')
    if not freesel:
        ctx.stream(seed)
    _g('MultiNewGeneration' if kind == 'ffga' else 'NewGeneration')(mode).execute(d)
    for ind in inds:
        ctx.check(Or([same_rec(snap(ind), s) for s in snaps]), 'replacement leaves survivors unchanged')
    for ind in d.population:
        ctx.check(Or([same_rec(snap(ind), s) for s in snaps + ksnaps]),
                  'the next generation holds children and unchanged survivors')
    surv = [i for i in d.population if i['score'] is not None]
    ssn = [snap(i) for i in surv]
    if kind in ('bin', 'gray', 'cat', 'order'):
        cnt = [0]

        def f(x):
            cnt[0] += 1
            return (100.0 + cnt[0], -1.0) if cond else 100.0 + cnt[0]
        if kind in ('bin', 'gray'):
            for ind in d.population:        # (decoding is another property)
                if ind['phenotype'] is None:
                    ind['phenotype'] = [9.0]
        kw = dict(penalty=_g('DynamicPenalty')(), conditions=['optimize', '<=']) if cond else {}
        _g('HyperbolaFitness')(obj_function=f, **kw).execute(d)
        for i, s in zip(surv, ssn):
            ctx.check(same_rec(snap(i), s), 'evaluating the next generation leaves survivors unchanged')
        d.update()
        for i, s in zip(surv, ssn):
            ctx.check(same_rec(snap(i), s), 'recording the generation leaves survivors unchanged')


def jobs(tier):
    big = tier == 'thorough'
    J = []

    def add(kind, sel, cross, mut, n=4, L=3, symbolic=True, lvl=0.5, **k):
        for pairs in (1, 2) if not k.get('freesel') else (1,):
            if kind == 'vega' and pairs == 2 and not big:
                continue
            for s in range(3 if big else 1):
                lim = dict(time=(8 if pairs == 1 else 3) if not big else 120, validate=6)
                if k.get('freesel'):
                    lim['max_draws'] = 3 * (2 if kind == 'vega' else 1) + (3 if 'Tournament' in sel else 0)
                J.append(dict(func='cycle', cfg=dict(kind=kind, sel=sel, cross=cross, mut=mut, n=n, L=L, symbolic=symbolic,
                                                     seed=len(J) + s, lvl=lvl, pairs=pairs, **k), cost=5, limits=lim))
    B = 'BinStringMutation'
    for kind in ('bin', 'gray'):
        for i, (sel, cross) in enumerate([('TournamentSelection', 'OnePointCrossover'), ('BalancedSelection', 'TwoPointCrossover'),
                                          ('RankedSelection', 'UniformCrossover')]):
            L = 3 if 'Two' in cross else 2
            add(kind, sel, cross, B, n=3, L=L, lvl=1.0, mode=['best', 'random'][i % 2])
            add(kind, sel, cross, B, n=3, L=L, lvl=0.5, cond=i % 2 == 0)
            add(kind, sel, cross, B, n=3, L=4, symbolic=False, lvl=0.5, freesel=True)
    for sel in ('TournamentSelection', 'BalancedSelection', 'RankedSelection'):
        add('cat', sel, 'UniformCrossover', 'CategoricalMutation', n=3, L=2)
        add('cat', sel, 'OnePointCrossover', 'CategoricalMutation', n=3, L=2, lvl=1.0, mode='random')
        add('cat', sel, 'UniformCrossover', 'CategoricalMutation', n=3, L=2, lvl=1.0, symbolic=False, freesel=True)
    for i, mut in enumerate(['SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation']):
        for c in ('OrderCrossover', 'UniformCrossover'):
            add('order', 'TournamentSelection', c, mut, n=3, L=3, lvl=[1.0, 0.5][i % 2], cond=i % 2 == 1)
    for sel in ('VEGATournamentSelection', 'VEGABalancedSelection', 'VEGARankedSelection'):
        add('vega', sel, 'OnePointCrossover', B, n=4, L=2, lvl=1.0)
        add('vega', sel, 'UniformCrossover', B, n=4, L=2, symbolic=False, freesel=True)
    for mode in ('best', 'random'):
        add('ffga', 'BalancedSelection', 'OnePointCrossover', B, n=4, L=2, lvl=1.0, mode=mode)
        add('ffga', 'TournamentSelection', 'TwoPointCrossover', B, n=4, mode=mode)
    J += soak_jobs('C08', tier, kinds=('bin', 'cat', 'ord', 'swap', 'ffga', 'vega'), tables=('inf', 'mixed', 'low', 'large', 'tiny', 'bool'))
    return J
