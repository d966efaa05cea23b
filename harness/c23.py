"""C23: population sizes and user-supplied start individuals are honoured."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['BinaryPopulation.set_params/fill/float_individ_to_binary', 'BinaryGrayPopulation', 'CatPopulation.set_params/fill',
             'OrderCatPopulation.set_params/fill', 'NewGeneration.execute/add_best/add_parents', 'MultiNewGeneration.execute/add_best',
             'CollectorGA.set_population', 'BinaryGA/CategoricalGA/CombinatoryGA/VEGA/FFGA.optimize']
BOUNDS = ('initial populations of 1..6 with 0..n supplied individuals (values symbolic), all four population classes; later '
          'generations: populations of 3..6 with symbolic scores and duplicates, children_percent 0..1, both transfer modes, '
          'draws symbolic (bounded) or fixed streams; ready-made algorithms with 1..4 generations and sizes up to 40 (children_percent down to 0.1) and around '
          'new constants; search spaces with fewer points than individuals')
ASSUMPTIONS = ['supplied binary values lie inside the gene range (others are rejected, C27)']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


BGENS = {'a': [(0, 3, 1)], 'b': [(-1, 2, 0.5), (0, 7, 1)], 'c': [(0.5, 2.5, 0.3), (0, 1, 1), (-4, 4, 2)]}
CGENS = [['x', 'y', 'z'], [0, 1], (2, 6, 2)]


def near(v, got, gen):
    import math
    k = int((gen[1] - gen[0]) / gen[2])
    bits = max(0, math.ceil(math.log2(k + 1)))
    step = (gen[1] - gen[0]) / (2 ** bits - 1)
    return And(got - v <= step / 2 + 1e-9, v - got <= step / 2 + 1e-9)


def initial(ctx, kind, n, k, g='b', via='pop'):
    """via: the population class itself or CollectorGA.set_population"""
    if kind in ('bin', 'gray'):
        gens = tuple(tuple(x) for x in BGENS[g])
        start = [[ctx.real(f'x{i}_{j}', gn[0], gn[1]) for j, gn in enumerate(gens)] for i in range(k)]
        cls = _g('BinaryPopulation' if kind == 'bin' else 'BinaryGrayPopulation')
    elif kind == 'cat':
        gens = tuple(CGENS)
        start = [[ctx.choose(f'x{i}_0', ['x', 'y', 'z']), ctx.int(f'x{i}_1', 0, 1), 2 * ctx.int(f'x{i}_2', 1, 3)] for i in range(k)]
        cls = _g('CatPopulation')
    else:
        gens = (1, 4, 4)
        start = [[ctx.int(f'x{i}_{j}', 1, 4) for j in range(4)] for i in range(k)]
        for s in start:
            ctx.assume(all_distinct(s))
        cls = _g('OrderCatPopulation')
    given = [list(s) for s in start]
    ctx.stream(3)
    arg = start if k or via == 'collector' else None
    if via == 'pop':
        p = cls()
        p.set_params(num_individ=n, gens=gens, input_population=arg)
        p.fill()
    else:
        import baumeva
        c = baumeva.CollectorGA(fitness=None, selection=None, crossover=None, mutation=None, new_generation=None)
        c.set_population(population=cls, num_individ=n, num_generations=3, gens=gens, input_population=arg)
        p = c.ga_data.population
    ctx.check(len(p) == n, 'the initial population has exactly num_individ individuals')
    for i in range(k):
        if kind in ('bin', 'gray'):
            ctx.check(And([near(v, got, gn) for v, got, gn in zip(given[i], p[i]['phenotype'], gens)]),
                      'supplied individuals come first, in order, at the nearest grid point')
            ctx.check(len(p[i]['phenotype']) == len(given[i]), 'supplied individuals keep their genes')
        else:
            ctx.check(eq(list(p[i]['genotype']), given[i]), 'supplied individuals come first, in order and unchanged')
    for x in p:
        ctx.check(x['score'] is None and x['obj_score'] is None, 'initial individuals are unevaluated')
    ctx.check(not any(p[i] is p[j] or p[i]['genotype'] is p[j]['genotype'] for i in range(n) for j in range(i)),
              'initial individuals are separate individuals')
    if kind in ('cat', 'ord'):
        ctx.observe('p', [x['genotype'] for x in p])


TINY = {'bin': ((0, 1, 1),), 'gray': ((-1, 1, 1), (0, 1, 1)), 'cat': (['x', 'y'],), 'one': (['x'], (3, 3, 1)), 'ord': (1, 2, 2), 'pair': (1, 2, 1)}


def tiny(ctx, kind, n, k, seed):
    """more individuals than points of the search space: initialisation still gives exactly n of them"""
    from symx.ctx import DrawBudget
    cls = {'bin': 'BinaryPopulation', 'gray': 'BinaryGrayPopulation', 'cat': 'CatPopulation', 'one': 'CatPopulation'}.get(kind, 'OrderCatPopulation')
    if kind in ('bin', 'pair', 'gray'):
        first = [ctx.int('x', *{'bin': (0, 1), 'pair': (1, 2), 'gray': (-1, 1)}[kind])] + ([1] if kind == 'gray' else [])
    elif kind == 'cat':
        first = [ctx.choose('x', ['x', 'y'])]
    elif kind == 'one':
        first = ['x', 3]
    else:
        first = ctx.choose('x', [[1, 2], [2, 1]])
    p = _g(cls)()
    p.set_params(num_individ=n, gens=TINY[kind], input_population=[list(first)] * k if k else None)
    ctx.stream(seed)
    ctx.draw_cap = 5000
    try:
        p.fill()
        done = True
    except DrawBudget:
        done = False
    finally:
        ctx.draw_cap = None
    ctx.check(done, 'initialisation finishes')
    ctx.check(len(p) == n, 'the initial population has exactly num_individ individuals')


def replaced(ctx, n, extra, nc, mode, dup=0, hi=2, sym_geno=True):
    """one replacement: any scores, any (possibly equal) genotypes, any draws"""
    m = n + extra
    gs = [[ctx.int(f'g{i}', 0, hi)] if sym_geno else [i] for i in range(m)]
    ctx.quiet()
    pop = cat_pop([[0] for i in range(m)], gens=(list(range(40)),))
    ctx.quiet(False)
    pop.num_individ = n
    for ind, gg in zip(pop, gs):
        ind['genotype'] = gg
        s = ctx.int(f's{gg}' if not sym_geno else f's{pop.index(ind)}', 0, 3)
        ind['score'] = ind['obj_score'] = s
    d = ga(pop)
    d.update()
    d.children = d.population.get_empty_copy()
    for q in range(nc):
        c = d.population.get_empty_individ()
        c['genotype'] = [20 + q]
        d.children.append(c)
    _g('NewGeneration')(mode).execute(d)
    ctx.check(n <= len(d.population) <= n + 1, 'the next generation has num_individ or num_individ + 1 individuals')
    for q in range(nc):
        ctx.check(Or([eq(x['genotype'], [20 + q]) for x in d.population]), 'all children are in the next generation')
    ctx.check(d.population.num_individ == n, 'the declared size is kept')


PARTS = {'bin': ('BinaryPopulation', ((0, 7, 1),), 'OnePointCrossover', 'BinStringMutation'),
         'gray': ('BinaryGrayPopulation', ((0, 7, 1),), 'OnePointCrossover', 'BinStringMutation'),
         'cat': ('CatPopulation', ([0, 1, 2], [0, 1, 2]), 'UniformCrossover', 'CategoricalMutation'),
         'ord': ('OrderCatPopulation', (1, 4, 4), 'OrderCrossover', 'MovementMutation')}


def run(ctx, kind, seed, n, cp, mode, gens=4):
    """whole runs of single-objective components"""
    P, gn, cr, mu = PARTS[kind]
    f = ctx.func('f', lambda nm: ctx.int(nm, 0, 2))
    ctx.stream(seed)
    pop = _g(P)()
    pop.set_params(num_individ=n, gens=gn)
    pop.fill()
    d = ga(pop, num_generations=gens, children_percent=cp)

    def each(t):
        ctx.check(len(d.population) == n if t == 0 else n <= len(d.population) <= n + 1,
                  'generations have num_individ or num_individ + 1 individuals')
    stepwise(ctx, d, _g('HyperbolaFitness')(obj_function=f), _g('TournamentSelection')(2), _g(cr)(), _g(mu)(mutation_lvl=0.5),
             _g('NewGeneration')(mode), gens, each)


def many(ctx, kind, n, cp, mode):
    """larger populations whose members have all different genotypes, few children; one symbolic coefficient of the objective"""
    P, gn, cr, mu = PARTS[kind]
    gn = {'bin': ((0, 1023, 1),), 'gray': ((0, 1023, 1),), 'cat': (list(range(20)), list(range(20))), 'ord': (1, 7, 7)}[kind]
    a = ctx.real('a', -2, 2)

    def f(x):
        s = a
        for q, v in enumerate(x):
            s = s + (q + 1) * v
        return s
    ctx.stream(n)
    pop = _g(P)()
    pop.set_params(num_individ=n, gens=gn)
    pop.fill()
    d = ga(pop, num_generations=3, children_percent=cp)

    def each(t):
        ctx.check(len(d.population) == n if t == 0 else n <= len(d.population) <= n + 1,
                  'generations have num_individ or num_individ + 1 individuals')
        ctx.check(len({id(x) for x in d.population}) == len(d.population), 'members are separate individuals')
    stepwise(ctx, d, _g('HyperbolaFitness')(obj_function=f), _g('TournamentSelection')(2), _g(cr)(), _g(mu)(mutation_lvl=0.5),
             _g('NewGeneration')(mode), 3, each)


def multi_run(ctx, algo, seed, n, cp, mode, gens=3):
    f = ctx.func('f', lambda nm: ctx.int(nm, 0, 2), 2)
    ctx.stream(seed)
    pop = bin_pop(n, ((0, 3, 1),))
    d = ga(pop, num_generations=gens, children_percent=cp, multi=True)
    if algo == 'FFGA':
        fit, sel, ng = _g('FFGAFitness'), _g('BalancedSelection')(), _g('MultiNewGeneration')(mode)
    else:
        fit, sel, ng = _g('VEGAHyperbolaFitness'), _g('VEGATournamentSelection')(2, 2), _g('NewGeneration')(mode)
    prev = [None]

    class NG:
        def execute(self, d):
            kids = [list(c['genotype']) for c in d.children]
            r1 = len([x for x in d.population if x['rank'] == 1])
            m = len(d.population)
            ng.execute(d)
            now = [list(x['genotype']) for x in d.population if x['score'] is None]
            ctx.check(sorted(map(str, now)) == sorted(map(str, kids)), 'all children, once each, are in the next generation')
            if algo == 'VEGA':
                ctx.check(n <= len(d.population) <= n + 1, 'VEGA generations have num_individ or num_individ + 1 individuals')
            elif mode == 'best':
                ctx.check(len(d.population) == len(kids) + r1, 'FFGA generations hold the children and every individual of rank 1')
            else:
                ctx.check(len(kids) < len(d.population) <= len(kids) + m, 'FFGA generations hold the children and the elites')
    stepwise(ctx, d, fit(obj_function=f), sel, _g('OnePointCrossover')(), _g('BinStringMutation')('strong'), NG(), gens,
             lambda t: None)


def facade(ctx, algo, seed, n, gens, k=0, cp=0.95, mode='best'):
    """the ready-made algorithms: generation 0 has exactly n individuals and contains the supplied ones; later n or n+1"""
    import baumeva
    multi = algo in ('VEGA', 'FFGA')
    gn = {'BinaryGA': ((0, 15, 1), (-1, 1, 0.25)), 'CategoricalGA': (list(range(9)), list(range(9))), 'CombinatoryGA': (1, 6, 6),
          'VEGA': ((0, 15, 1), (-1, 1, 0.25)), 'FFGA': ((0, 15, 1), (-1, 1, 0.25))}[algo]
    if algo == 'CategoricalGA':
        start = [[(3 * i) % 9, (i * i) % 9] for i in range(k)]
    elif algo == 'CombinatoryGA':
        base = [1, 2, 3, 4, 5, 6]
        start = [base[i % 6:] + base[:i % 6] for i in range(k)]
    else:
        start = [[(5 * i) % 16, -1 + (2 / 15) * ((3 * i) % 16)] for i in range(k)]
    a = ctx.real('a', -2, 2)
    seen = []

    def f(x):
        seen.append(list(x))
        s = a
        for q, v in enumerate(x):
            s = s + (q + 1) * v
        return (s, 3 - x[0]) if multi else s
    ctx.stream(seed)
    kw = {} if algo == 'FFGA' else dict(tournament_size=2)
    d = getattr(baumeva, algo)(num_generations=gens, num_individ=n, gens=gn, obj_function=f, is_print=False, early_stop=None,
                               input_population=[list(s) for s in start] if k else None, children_percent=cp,
                               transfer_parents=mode, **kw).optimize()
    m = len(d.population)
    if gens == 1:
        ctx.check(m == n, 'the initial population has exactly num_individ individuals')
        if not multi:
            ctx.check(len(seen) == n, 'exactly num_individ individuals are evaluated in the first generation')
        for s in start:
            ctx.check(any(all(abs(u - v) < 1e-6 if not isinstance(v, str) else u == v for u, v in
                              zip(x.get('phenotype') or x['genotype'], s)) for x in d.population),
                      'the supplied individuals are in the first generation')
    elif algo != 'FFGA':
        ctx.check(n <= m <= n + 1, 'later generations have num_individ or num_individ + 1 individuals')
    for s in start:
        ctx.check(any(all(abs(u - v) < 1e-6 for u, v in zip(x, s)) for x in seen), 'the supplied individuals are evaluated')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=20 if not big else 300)
    for kind in ('bin', 'gray', 'cat', 'ord'):
        for n, k in ((1, 0), (1, 1), (3, 0), (3, 1), (2, 2), (4, 3)):
            J.append(dict(func='initial', cfg=dict(kind=kind, n=n, k=k), cost=k, limits=T))
        J.append(dict(func='initial', cfg=dict(kind=kind, n=3, k=2, via='collector'), cost=3, limits=T))
        J.append(dict(func='initial', cfg=dict(kind=kind, n=3, k=0, via='collector'), limits=T))
    for i, kind in enumerate(TINY):
        for n, k in ((3, 0), (7, 0), (5, 1), (6, 6), (20, 3)):
            J.append(dict(func='tiny', cfg=dict(kind=kind, n=n, k=k, seed=i + n), limits=dict(time=5, validate=2)))
    for kind in ('bin', 'gray'):
        for g in ('a', 'c'):
            J.append(dict(func='initial', cfg=dict(kind=kind, n=3, k=2, g=g), cost=3, limits=T))
    for mode in ('best', 'random'):
        for n, e, nc in ((2, 0, 1), (3, 0, 2), (3, 1, 1), (3, 1, 2), (3, 0, 0), (3, 0, 3), (4, 1, 2), (4, 0, 1)):
            J.append(dict(func='replaced', cfg=dict(n=n, extra=e, nc=nc, mode=mode), cost=n + e, limits=dict(T, max_draws=12)))
    for kind in PARTS:
        for mode in ('best', 'random'):
            for n, cp in ((3, 0.95), (4, 0.5), (5, 1.0), (5, 0.2), (4, 0.0)):
                for seed in (1, 2) if big else (1,):
                    J.append(dict(func='run', cfg=dict(kind=kind, seed=seed, n=n, cp=cp, mode=mode, gens=3 if not big else 5),
                                  cost=6, limits=dict(time=6 if not big else 120)))
    for algo in ('FFGA', 'VEGA'):
        for mode in ('best', 'random'):
            for n, cp in ((4, 0.95), (5, 0.5), (4, 1.0), (3, 0.7)):
                J.append(dict(func='multi_run', cfg=dict(algo=algo, seed=1, n=n, cp=cp, mode=mode), cost=6,
                              limits=dict(time=8 if not big else 120)))
    for algo in ('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA'):
        for n in sizes([3, 4, 7, 10, 20], 3, 60):
            for gens in (1, 2, 3):
                if algo == 'FFGA' and n > 12:
                    continue
                cps = [(0.95, 'best'), (0.5, 'random')] if gens > 1 else [(0.95, 'best')]
                for cp, mode in cps:
                    J.append(dict(func='facade', cfg=dict(algo=algo, seed=n, n=n, gens=gens, k=min(n, 5) if n != 4 else 0, cp=cp,
                                                          mode=mode), cost=2, limits=dict(time=6)))
        J.append(dict(func='facade', cfg=dict(algo=algo, seed=1, n=6, gens=1, k=6), cost=2, limits=T))
        # few children: many members are carried over
        if algo != 'FFGA':
            for n in sizes([12, 30], 8, 130):
                for mode in ('best', 'random'):
                    J.append(dict(func='facade', cfg=dict(algo=algo, seed=n, n=n, gens=2, cp=0.1, mode=mode), cost=2, limits=dict(time=6)))
    for kind in PARTS:
        for n in sizes([12, 25, 40], 8, 130):
            J.append(dict(func='many', cfg=dict(kind=kind, n=n, cp=0.1, mode='best' if n % 2 else 'random'), cost=2, limits=dict(time=6)))
            J.append(dict(func='many', cfg=dict(kind=kind, n=n, cp=0.5, mode='best'), cost=2, limits=dict(time=6)))
    J += soak_jobs('C23', tier, kinds=('bin', 'gray', 'cat', 'ord', 'ffga', 'vega'))
    return J
