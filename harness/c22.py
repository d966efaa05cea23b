"""C22: runs respect the generation budget and the early-stop rule."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['BinaryGA.optimize', 'CategoricalGA.optimize', 'CombinatoryGA.optimize', 'VEGA.optimize', 'FFGA.optimize',
             'CollectorGA.optimize/set_population', 'GaData.update', 'MultiGaData.update']
BOUNDS = ('CollectorGA driven with arbitrary symbolic best scores per generation, budgets 1..7, early_stop 0..6; every ready-made '
          'algorithm with real components on fixed draw streams, budgets 1..7 (and around new constants), early_stop None, 0..3, '
          'improvements of the objective symbolic; search spaces of 2..6 points with up to 20 individuals, objective symbolic')
ASSUMPTIONS = ['with a Pareto set the run may go on for one or two generations after a change of bookkeeping indices only']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def rule(ctx, improved, G, budget, early, slack=0):
    """improved[t]: generation t improved on everything before (truth value, may be symbolic); early None: no early stopping"""
    ctx.check(1 <= G <= budget, 'at most num_generations generations are evaluated')
    if early is None:
        ctx.check(G == budget, 'exactly num_generations without early stopping')
        return
    # streak[t] >= k  <=>  the last k generations up to t did not improve (generation 0 always improves)
    def streak_ge(t, k):
        if k == 0:
            return True
        if t - k + 1 < 1:
            return False
        return And([Not(improved[u]) for u in range(t - k + 1, t + 1)])
    if G < budget:
        ctx.check(streak_ge(G - 1, early), 'a run ends early only after early_stop generations without improvement')
    for t in range(1, G - 1):
        ctx.check(Not(streak_ge(t, early + 1 + slack)), 'a run ends once more than early_stop generations brought no improvement')


class Nop:
    def __init__(self):
        self.n = 0

    def execute(self, *a, **k):
        self.n += 1


def stub(ctx, budget, early, kind='real', multi=False):
    """arbitrary sequence of best scores; order of the steps"""
    import baumeva
    log = []
    mk = ctx.int if kind == 'int' else ctx.real
    seq = []

    class Step:
        def __init__(self, name):
            self.name = name

        def execute(self, ga_data):
            log.append(self.name)

    class Fit:
        def execute(self, ga_data):
            log.append('fit')
            t = len(seq)
            if multi:
                v = ctx.int(f's{t}', 0, 2)
                for ind in ga_data.population:
                    ind['rank'], ind['score'], ind['obj_score'] = 1, 0.5, [v, v]
            else:
                v = mk(f's{t}', -5, 5)
                ga_data.population[0]['score'] = ga_data.population[0]['obj_score'] = v
                ga_data.population.is_sorted = False
            seq.append(v)
    ctx.quiet()
    c = baumeva.CollectorGA(fitness=Fit(), selection=Step('sel'), crossover=Step('cross'), mutation=Step('mut'),
                            new_generation=Step('new'), storage=_g('MultiGaData') if multi else _g('GaData'))
    c.set_population(population=_g('BinaryPopulation'), num_individ=1, num_generations=budget, gens=((0, 3, 1),), early_stop=early)
    ctx.quiet(False)
    if multi:
        c.ga_data.population.get_phenotype()
    c.optimize()
    d = c.ga_data
    G = len(seq)
    if multi:
        imp = [True] + [ne(seq[t], seq[t - 1]) for t in range(1, G)]
    else:
        imp = [True] + [And([seq[t] > seq[u] for u in range(t)]) for t in range(1, G)]
    rule(ctx, imp, G, budget, early)
    ctx.check(log == ['fit'] + ['sel', 'cross', 'mut', 'new', 'fit'] * (G - 1), 'one full cycle per generation')
    ctx.check(d.idx_generation == G, 'generations are counted')
    for h in ([d.historical_best] if multi else [d.historical_best, d.historical_mediocre, d.historical_worst]):
        ctx.check(len(h) == G, 'one history entry per evaluated generation')
    ctx.observe('G', G)
    ctx.must_cover('full')
    ctx.cover('full', G == budget)
    if early + 2 <= budget - 1:
        ctx.must_cover('early')
        ctx.cover('early', G < budget)


GENS = {'BinaryGA': ((0, 63, 1),), 'CategoricalGA': (list(range(8)), list(range(8))), 'CombinatoryGA': (0, 4, 5),
        'VEGA': ((0, 63, 1),), 'FFGA': ((0, 63, 1),)}


def facade(ctx, algo, budget, early, seed, step=3, n=3, never=False):
    """real components; the objective improves at arbitrary moments (every `step` calls at most)"""
    import baumeva
    multi = algo in ('VEGA', 'FFGA')
    calls = [0]
    level = [100.0]
    memo = {}

    def f(x):
        if not never and calls[0] % step == 0 and calls[0] and calls[0] < 8 * step:
            if ctx.truth(ctx.bool(f'imp{calls[0]}')):
                level[0] -= 1.0
        calls[0] += 1
        k = tuple(x)
        if k not in memo:
            memo[k] = level[0]
        return (memo[k], memo[k]) if multi else memo[k]
    ctx.stream(seed)
    kw = {} if algo == 'FFGA' else dict(tournament_size=2)
    d = getattr(baumeva, algo)(num_generations=budget, num_individ=n, gens=GENS[algo], obj_function=f, early_stop=early,
                               is_print=False, mutation_lvl='strong', **kw).optimize()
    G = d.idx_generation
    h = d.historical_best
    ctx.check(len(h) == G, 'one history entry per evaluated generation')
    if multi:
        def key(s):
            return sorted(str((x['genotype'], x['obj_score'])) for x in s)
        imp = [True] + [key(h[t]) != key(h[t - 1]) for t in range(1, G)]
    else:
        ctx.check(len(d.historical_mediocre) == G and len(d.historical_worst) == G, 'one history entry per evaluated generation')
        imp = [True] + [all(h[t] > h[u] for u in range(t)) for t in range(1, G)]
    rule(ctx, imp, G, budget, early, slack=2 if multi else 0)
    ctx.observe('G', G)


def constant(ctx, algo, budget, early, seed, n=4):
    """an objective that never improves: between early_stop+1 and early_stop+2 generations (default early_stop: 10)"""
    import baumeva
    ctx.stream(seed)
    v = ctx.real('v', -5, 5)
    kw = {} if early == 'default' else dict(early_stop=early)
    d = getattr(baumeva, algo)(num_generations=budget, num_individ=n, gens=GENS[algo], obj_function=lambda x: v, is_print=False,
                               **kw).optimize()
    e = 10 if early == 'default' else early
    G = len(d.historical_best)
    if e is None:
        ctx.check(G == budget, 'exactly num_generations without early stopping')
    else:
        ctx.check(min(budget, e + 1) <= G <= min(budget, e + 2), 'a run without improvement ends after early_stop generations')


TINY = {'BinaryGA': ((0, 1, 1), (0, 1, 1)), 'CategoricalGA': ([7], [1, 2]), 'CombinatoryGA': (1, 3, 3), 'VEGA': ((0, 3, 1),), 'FFGA': ((0, 3, 1),)}


def tiny_run(ctx, algo, budget, early, mode, n, seed, lvl='normal', cp=0.95):
    """fewer points in the search space than individuals: the run still ends, after the same number of generations"""
    import baumeva
    from symx.ctx import DrawBudget
    multi = algo in ('VEGA', 'FFGA')
    fn = ctx.func('f', lambda nm: ctx.int(nm, -1, 1), 2 if multi else None)
    ctx.stream(seed)
    ctx.draw_cap = 20000 + 400 * n * budget
    kw = {} if algo == 'FFGA' else dict(tournament_size=2)
    d, done = None, True
    try:
        d = getattr(baumeva, algo)(num_generations=budget, num_individ=n, gens=TINY[algo], obj_function=fn, early_stop=early,
                                   is_print=False, transfer_parents=mode, mutation_lvl=lvl, children_percent=cp, **kw).optimize()
    except DrawBudget:
        done = False
    finally:
        ctx.draw_cap = None
    ctx.check(done, 'the run ends')
    h = d.historical_best
    G = len(h)
    ctx.check(1 <= G <= budget, 'at most num_generations generations are evaluated')
    if early is None:
        ctx.check(G == budget, 'exactly num_generations without early stopping')
    elif not multi:
        rule(ctx, [True] + [all(ctx.truth(h[t] > h[u]) for u in range(t)) for t in range(1, G)], G, budget, early)


def collector_default(ctx, budget, seed):
    import baumeva
    ctx.stream(seed)
    v = ctx.real('v', -5, 5)
    c = baumeva.CollectorGA(fitness=_g('HyperbolaFitness')(obj_function=lambda x: v), selection=_g('TournamentSelection')(2),
                            crossover=_g('UniformCrossover')(), mutation=_g('CategoricalMutation')('normal'),
                            new_generation=_g('NewGeneration')('best'))
    c.set_population(population=_g('CatPopulation'), num_individ=4, num_generations=budget, gens=(list(range(8)),) * 2)
    c.optimize()
    G = len(c.ga_data.historical_best)
    ctx.check(min(budget, 11) <= G <= min(budget, 12), 'CollectorGA stops early by default after 10 generations')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=20 if not big else 300)
    for b in (1, 2, 3, 4, 5, 6):
        for e in (0, 1, 2, 3, 6):
            if e > b:
                continue
            J.append(dict(func='stub', cfg=dict(budget=b, early=e), cost=b, limits=T))
            J.append(dict(func='stub', cfg=dict(budget=b, early=e, multi=True), cost=b, limits=T))
        J.append(dict(func='stub', cfg=dict(budget=b, early=b // 2, kind='int'), cost=b, limits=T))
    if big:
        for e in (0, 1, 2, 4):
            J.append(dict(func='stub', cfg=dict(budget=8, early=e), cost=9, limits=T))
    for algo in ('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA'):
        for b, e in ((1, 0), (1, None), (2, 0), (3, 0), (5, 1), (6, None), (6, 2), (7, 0), (7, 3)):
            for seed in (1,) if not big else (1, 2, 3):
                J.append(dict(func='facade', cfg=dict(algo=algo, budget=b, early=e, seed=seed, n=4), cost=b, limits=T))
    for algo in ('BinaryGA', 'CategoricalGA', 'CombinatoryGA'):
        for b in sizes([3, 12, 13, 25], 2, 60):
            for e in ('default', None, 2, 0):
                J.append(dict(func='constant', cfg=dict(algo=algo, budget=b, early=e, seed=1), limits=T))
        for e in sizes([5, 20], 1, 60):
            J.append(dict(func='constant', cfg=dict(algo=algo, budget=e + 6, early=e, seed=1), limits=T))
    for i, n in enumerate(sizes([10, 21], 5, 130)):
        for algo in ('BinaryGA', 'CategoricalGA', 'CombinatoryGA'):
            J.append(dict(func='constant', cfg=dict(algo=algo, budget=9, early=(3, 1, None)[i % 3], seed=2, n=n), limits=T))
    for algo in TINY:
        for i, (b, e, n) in enumerate(((3, None, 4), (6, 1, 5), (5, 0, 8), (9, 2, 3), (4, None, 20))):
            for mode in ('best', 'random'):
                J.append(dict(func='tiny_run', cfg=dict(algo=algo, budget=b, early=e, mode=mode, n=n, seed=i + 1, lvl=('normal', 'weak', 'strong')[i % 3],
                                                        cp=(0.95, 0.5, 1)[i % 3]), cost=2, limits=T))
    for b in (3, 11, 12, 30):
        J.append(dict(func='collector_default', cfg=dict(budget=b, seed=1), limits=T))
    J += soak_jobs('C22', tier, tables=('inf', 'mixed', 'low', 'large', 'tiny', 'bool'))
    return J
