"""C09: the best individual always survives (elitism)."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['NewGeneration.execute/add_parents/add_best', 'BasePopulation.sort_by_dict/is_duplicate', 'GaData.update',
             'BinaryGA/CategoricalGA/CombinatoryGA.optimize (main loop)']
BOUNDS = ('replacement: populations of 2..5, scores symbolic (ties allowed), genotypes with every pattern of duplicates, '
          '0..N+1 children, best/random transfer, sorted or not; runs: 4 generations of 4..5 individuals, arbitrary '
          'objective, fixed draw streams')
ASSUMPTIONS = ['scores are finite numbers']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def survives(ctx, d, recs, msg):
    """some individual of the highest score is present with its genotype and score"""
    best = maxof([s for _, s in recs])
    alts = []
    for g, s in recs:
        for ind in d.population:
            if ind['score'] is not None:
                alts.append(And(eq(s, best), eq(list(ind['genotype']), g), eq(ind['score'], s)))
    ctx.check(Or(alts), msg)


def replace(ctx, n, k, mode, pattern, update, intscore=False):
    """one replacement step"""
    mk = ctx.int if intscore else ctx.real
    sc = [mk(f's{i}', -5, 5) for i in range(n)]
    gs = [[p, 7] for p in pattern]
    pop = cat_pop(gs, gens=([0, 1, 2, 3, 4, 5], [7]), n=n)
    mark_evaluated(pop, sc)
    d = ga(pop)
    if update:
        d.update()
    d.children = pop.get_empty_copy()
    for i in range(k):
        c = pop.get_empty_individ()
        c['genotype'] = [9, i]
        d.children.append(c)
    recs = [(list(g), s) for g, s in zip(gs, sc)]
    _g('NewGeneration')(mode).execute(d)
    survives(ctx, d, recs, 'a best individual is in the next generation with its genotype and score')
    for i in range(k):
        ctx.check(Or([x['genotype'] == [9, i] for x in d.population]), 'all children are in the next generation')
    ctx.observe('scores', [x['score'] for x in d.population])
    ctx.observe('genos', genos(d.population))


def replace_big(ctx, n, k, mode, dup):
    """larger populations: most scores fixed, two arbitrary, `dup` copies of one genotype"""
    sc = [float((7 * i) % n) for i in range(n)]
    sc[1], sc[n - 2] = ctx.real('a', -5, 2 * n), ctx.real('b', -5, 2 * n)
    gs = [[0 if i % max(1, n // max(1, dup)) == 1 else i, 7] for i in range(n)]
    pop = cat_pop(gs, gens=(list(range(n)), [7]), n=n)
    mark_evaluated(pop, sc)
    d = ga(pop)
    d.children = pop.get_empty_copy()
    for i in range(k):
        c = pop.get_empty_individ()
        c['genotype'] = [9 + n, i]
        d.children.append(c)
    recs = [(list(g), s) for g, s in zip(gs, sc)]
    ctx.quiet()
    _g('NewGeneration')(mode).execute(d)
    survives(ctx, d, recs, 'a best individual is in the next generation with its genotype and score')
    ctx.observe('scores', [x['score'] for x in d.population])


def run(ctx, algo, seed, mode, gens=4, n=4, target=None, pct=0.95):
    """component loop: generation by generation"""
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 10))
    if algo == 'bin':
        P, gn, cross, mut = 'BinaryPopulation', ((0, 3, 1),), 'OnePointCrossover', 'BinStringMutation'
    elif algo == 'gray':
        P, gn, cross, mut = 'BinaryGrayPopulation', ((0, 3, 1),), 'UniformCrossover', 'BinStringMutation'
    elif algo == 'cat':
        P, gn, cross, mut = 'CatPopulation', (['a', 'b'], (0, 1, 1)), 'UniformCrossover', 'CategoricalMutation'
    else:
        P, gn, cross, mut = 'OrderCatPopulation', (1, 3, 3), 'OrderCrossover', 'MovementMutation'
    ctx.stream(seed)
    pop = _g(P)()
    pop.set_params(num_individ=n, gens=gn)
    pop.fill()
    d = ga(pop, num_generations=gens, children_percent=pct)
    prev = []

    def each(t):
        if prev:
            survives(ctx, d, prev[0], 'a best individual is in the next generation with its genotype and score')
            ctx.check(d.historical_best[t] >= d.historical_best[t - 1], 'best score per generation never decreases')
        prev[:] = [[(list(x['genotype']), x['score']) for x in d.population]]
    stepwise(ctx, d, _g('HyperbolaFitness')(obj_function=f, obj_value=target), _g('TournamentSelection')(2), _g(cross)(),
             _g(mut)(mutation_lvl=0.5), _g('NewGeneration')(mode), gens, each)
    ctx.observe('best', d.historical_best)


def facade(ctx, algo, seed, mode, target=None):
    import baumeva
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 10))
    gn = {'BinaryGA': ((0, 3, 1),), 'CategoricalGA': (['a', 'b'], (0, 1, 1)), 'CombinatoryGA': (1, 3, 3)}[algo]
    ctx.stream(seed)
    d = getattr(baumeva, algo)(num_generations=4, num_individ=4, gens=gn, obj_function=f, obj_value=target,
                               tournament_size=2, transfer_parents=mode, mutation_lvl=0.7, is_print=False).optimize()
    h = d.historical_best
    for a, b in zip(h, h[1:]):
        ctx.check(b >= a, 'best score per generation never decreases')
    ctx.observe('best', h)


def patterns(n):
    """all ways genotypes can coincide (set partitions)"""
    out = [[0]]
    for _ in range(n - 1):
        out = [p + [k] for p in out for k in range(max(p) + 2)]
    return out


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for n in (2, 3, 4) if not big else (2, 3, 4, 5):
        ps = patterns(n)
        for k in range(0, n + 2):
            for mode in ('best', 'random'):
                for i, p in enumerate(ps):
                    if n == 4 and not big and (i + k) % 3:
                        continue
                    J.append(dict(func='replace', cfg=dict(n=n, k=k, mode=mode, pattern=p, update=(i + k) % 2 == 0,
                                                           intscore=(i + k) % 3 == 0),
                                  cost=n, limits=dict(time=10 if not big else 200, validate=3)))
    for n in sizes([6, 11], 3, 40):
        for k in sorted({0, n // 2, n - 2, n - 1, n}):
            for mode in ('best', 'random'):
                J.append(dict(func='replace_big', cfg=dict(n=n, k=k, mode=mode, dup=(k + n) % 4), cost=3,
                              limits=dict(time=10, validate=2)))
    s = 0
    for algo in ('bin', 'gray', 'cat', 'order'):
        for mode in ('best', 'random'):
            for pct in (0.95, 0.5):
                for r in range(3 if big else 1):
                    s += 1
                    J.append(dict(func='run', cfg=dict(algo=algo, seed=s, mode=mode, target=3 if s % 3 == 0 else None, pct=pct),
                                  cost=8, limits=dict(time=5 if not big else 120, validate=5)))
    for algo in ('BinaryGA', 'CategoricalGA', 'CombinatoryGA'):
        for mode in ('best', 'random'):
            s += 1
            J.append(dict(func='facade', cfg=dict(algo=algo, seed=s, mode=mode, target=2 if s % 2 else None),
                          cost=8, limits=dict(time=5 if not big else 120, validate=5)))
    J += soak_jobs('C09', tier, tables=('inf', 'mixed', 'low', 'large', 'tiny', 'bool'))
    return J
