"""C10: the reported best solution is the best ever evaluated."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['GaData.update/__init__', 'BasePopulation.sort_by_dict', 'NewGeneration.execute', 'BaseFitness.execute',
             'BinaryGA/CategoricalGA/CombinatoryGA.optimize', 'CollectorGA.optimize']
BOUNDS = ('update: up to 4 generations of 1..4 individuals with symbolic scores (ties allowed), records overwritten in '
          'place afterwards; runs: 4 generations of 4 individuals, arbitrary objective, fixed draw streams')
ASSUMPTIONS = ['scores are finite numbers']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def check_hist(ctx, d, t, scores):
    n = len(scores)
    ctx.check(And(len(d.historical_best) == t + 1, len(d.historical_mediocre) == t + 1, len(d.historical_worst) == t + 1),
              'one history entry per generation')
    ctx.check(eq(d.historical_best[t], maxof(scores)), 'historical_best holds the best score of the generation')
    ctx.check(eq(d.historical_worst[t], minof(scores)), 'historical_worst holds the worst score of the generation')
    mid = d.historical_mediocre[t]
    below = count([s < mid for s in scores])
    above = count([s > mid for s in scores])
    k = n // 2
    ctx.check(And(member(mid, scores), below <= k, above <= n - 1 - k), 'historical_mediocre holds the middle score by rank')


def updates(ctx, shape, kind):
    """arbitrary generations recorded one after the other"""
    mk = ctx.int if kind == 'int' else ctx.real
    d = None
    seen = []                     # (score, record, generation)
    for t, n in enumerate(shape):
        sc = [mk(f's{t}_{i}', -9, 9) for i in range(n)]
        pop = cat_pop([[10 * t + i, t] for i in range(n)], gens=(list(range(50)), list(range(9))))
        for i, (ind, s) in enumerate(zip(pop, sc)):
            ind['score'], ind['obj_score'], ind['feasible'] = s, [t, i, 0.5], (i + t) % 2 == 0
        recs = [(s, dict(snap(ind)), t) for s, ind in zip(sc, pop)]
        if d is None:
            d = ga(pop)
        else:
            d.population = pop
        d.update()
        seen += recs
        top = maxof([s for s, _, _ in seen])
        best = d.best_solution
        alts = []
        for s, r, g in seen:
            first = And([Or(s2 < top) for s2, _, g2 in seen if g2 < g])
            alts.append(And(eq(s, top), first, eq(best['idx_generation'], g), same_rec(snap(best), r)))
        ctx.check(Or(alts), 'best_solution is the first individual that reached the highest score, with its generation')
        check_hist(ctx, d, t, sc)
        ctx.check(d.idx_generation == t + 1, 'generation counter')
        ctx.observe(f'best{t}', [best['genotype'], best['score'], best['idx_generation']])
        keep = snap(best), best['idx_generation']
        hist = [list(d.historical_best), list(d.historical_mediocre), list(d.historical_worst)]
        for ind in pop:           # what later generations may do to their individuals
            ind['genotype'][0] = -1
            ind['obj_score'][0] = -1
            ind['score'] = 99
            ind['feasible'] = None
        ctx.check(And(same_rec(snap(d.best_solution), keep[0]), eq(d.best_solution['idx_generation'], keep[1])),
                  'later changes of individuals do not alter best_solution')
        ctx.check(And([eq(a, b) for a, b in zip(hist, [d.historical_best, d.historical_mediocre, d.historical_worst])]),
                  'later changes of individuals do not alter the history')


def two_records(ctx, shape, same=True):
    """two runs recorded in turn: neither sees anything of the other"""
    recs = []
    for r in range(2):
        d = ga(cat_pop([[r]], gens=([0, 1],)), num_generations=10 if same else 10 + r)
        recs.append((d, [], []))
    for t, n in enumerate(shape):
        for r, (d, seen, gens) in enumerate(recs):
            sc = [ctx.real(f's{r}_{t}_{i}', -9, 9) for i in range(n)]
            pop = cat_pop([[100 * r + 10 * t + i] for i in range(n)], gens=(list(range(200)),))
            mark_evaluated(pop, sc)
            d.population = pop
            d.update()
            gens.append(sc)
            seen.extend((s, 100 * r + 10 * t + i, t) for i, s in enumerate(sc))
    for d, seen, gens in recs:
        for t, sc in enumerate(gens):
            check_hist(ctx, d, t, sc) if t == len(gens) - 1 else ctx.check(
                And(eq(d.historical_best[t], maxof(sc)), eq(d.historical_worst[t], minof(sc))), 'history of an earlier generation stays')
        top = maxof([s for s, _, _ in seen])
        b = d.best_solution
        ctx.check(Or([And(eq(s, top), eq(b['genotype'], [g]), eq(b['idx_generation'], t), eq(b['score'], s),
                          *[s2 < top for s2, _, t2 in seen if t2 < t]) for s, g, t in seen]),
                  'best_solution is the first individual that reached the highest score, with its generation')


def two_runs(ctx, algo, seed):
    """the result of a finished run stays as it is when another run is made"""
    import baumeva
    gn = {'BinaryGA': ((0, 3, 1),), 'CategoricalGA': (['a', 'b'], (0, 1, 1)), 'CombinatoryGA': (1, 3, 3)}[algo]
    kept = []
    for r in range(2):
        f = ctx.func(f'f{r}', lambda nm: ctx.real(nm, 0, 10))
        ctx.stream(seed + r)
        d = getattr(baumeva, algo)(num_generations=2, num_individ=4, gens=gn, obj_function=f, tournament_size=2,
                                   is_print=False).optimize()
        ctx.quiet(False)
        kept.append((d, snap(d.best_solution), d.best_solution['idx_generation'], list(d.historical_best),
                     list(d.historical_mediocre), list(d.historical_worst), [snap(x) for x in d.population]))
    for d, b, g, hb, hm, hw, pop in kept:
        ctx.check(And(same_rec(snap(d.best_solution), b), eq(d.best_solution['idx_generation'], g)), 'a later run leaves best_solution alone')
        ctx.check(And(eq(list(d.historical_best), hb), eq(list(d.historical_mediocre), hm), eq(list(d.historical_worst), hw)),
                  'a later run leaves the histories alone')
        ctx.check(len(hb) == d.idx_generation == len(hm) == len(hw), 'one history entry per generation')
        ctx.check(And([same_rec(snap(x), y) for x, y in zip(d.population, pop)]), 'a later run leaves the final population alone')


def run(ctx, algo, seed, mode='best', gens=4, n=4, target=None):
    """component loop: everything evaluated is remembered by the harness"""
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 10))
    if algo in ('bin', 'gray'):
        P = 'BinaryPopulation' if algo == 'bin' else 'BinaryGrayPopulation'
        gn, cross, mut = ((0, 3, 1),), 'OnePointCrossover', 'BinStringMutation'
    elif algo == 'cat':
        P, gn, cross, mut = 'CatPopulation', (['a', 'b'], (0, 1, 1)), 'UniformCrossover', 'CategoricalMutation'
    else:
        P, gn, cross, mut = 'OrderCatPopulation', (1, 3, 3), 'OrderCrossover', 'MovementMutation'
    ctx.stream(seed)
    pop = _g(P)()
    pop.set_params(num_individ=n, gens=gn)
    pop.fill()
    d = ga(pop, num_generations=gens)
    seen = []

    def each(t):
        recs = [(x['score'], snap(x), t) for x in d.population]
        check_hist(ctx, d, t, [r[0] for r in recs])
        seen.extend(recs)
        top = maxof([s for s, _, _ in seen])
        best = d.best_solution
        alts = []
        for s, r, g in seen:
            first = And([s2 < top for s2, _, g2 in seen if g2 < g])
            alts.append(And(eq(s, top), first, eq(best['idx_generation'], g), same_rec(snap(best), r)))
        ctx.check(Or(alts), 'best_solution is the first individual that reached the highest score, with its generation')
    stepwise(ctx, d, _g('HyperbolaFitness')(obj_function=f, obj_value=target), _g('TournamentSelection')(2), _g(cross)(),
             _g(mut)(mutation_lvl=0.5), _g('NewGeneration')(mode), gens, each)
    ctx.observe('best', [d.best_solution['genotype'], d.best_solution['score']])


def facade(ctx, algo, seed, target=None):
    """the returned best solution against all objective values ever returned"""
    import baumeva
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 10))
    gn = {'BinaryGA': ((0, 3, 1),), 'CategoricalGA': (['a', 'b'], (0, 1, 1)), 'CombinatoryGA': (1, 3, 3)}[algo]
    ctx.stream(seed)
    d = getattr(baumeva, algo)(num_generations=4, num_individ=4, gens=gn, obj_function=f, obj_value=target,
                               tournament_size=2, mutation_lvl=0.7, is_print=False).optimize()
    b = d.best_solution
    arg = b['phenotype'] if algo == 'BinaryGA' else b['genotype']
    vals = [v for _, v in f.table]

    def dist(v):
        return v if target is None else ite(v >= target, v - target, target - v)
    ctx.check(And([le_tol(dist(b['obj_score']), dist(v)) for v in vals]), 'no evaluated individual is better than best_solution')
    ctx.check(Or([And(eq(list(arg), list(a)), eq(b['obj_score'], v)) for a, v in f.table]),
              'best_solution holds the values it was evaluated on and their objective score')
    ctx.observe('best', [b['genotype'], b['score']])


def crowd(ctx, n, where, gens=2):
    """large generations: one individual of each has an arbitrary score"""
    d, seen = None, []
    for t in range(gens):
        sc = [float((7 * i + 3 * t) % (n + 3)) - t for i in range(n)]
        sc[where] = ctx.real(f's{t}', -2, n + 5)
        pop = cat_pop([[n * t + i] for i in range(n)], gens=(list(range(gens * n)),))
        mark_evaluated(pop, sc)
        if d is None:
            d = ga(pop)
        else:
            d.population = pop
        d.update()
        seen += [(s, n * t + i, t) for i, s in enumerate(sc)]
        check_hist(ctx, d, t, sc)
        top = maxof([s for s, _, _ in seen])
        b = d.best_solution
        ctx.check(eq(b['score'], top), 'best_solution has the highest score seen')
        ctx.check(Or([And(eq(s, top), eq(b['genotype'], [g]), eq(b['idx_generation'], u),
                          *([maxof([s2 for s2, _, u2 in seen if u2 < u]) < top] if u else [])) for s, g, u in seen]),
                  'best_solution is the first individual that reached the highest score, with its generation')
        ctx.observe(f'b{t}', [b['genotype'], b['score']])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    shapes = [[1, 1, 1], [2, 2], [3], [4], [2, 1, 1], [3, 2], [1, 2, 1, 1], [5]] + ([[3, 3, 2], [2, 2, 2, 2], [4, 3], [6]] if big else [])
    for sh in shapes:
        for kind in ('real', 'int'):
            J.append(dict(func='updates', cfg=dict(shape=sh, kind=kind), cost=6, limits=dict(time=15 if not big else 400)))
    for n in sizes([12, 30], 6, 130):
        for where in (0, n // 2, n - 1):
            J.append(dict(func='crowd', cfg=dict(n=n, where=where, gens=1), cost=6, limits=dict(time=20 if not big else 400)))
        if n <= 40:
            J.append(dict(func='crowd', cfg=dict(n=n, where=n // 3), cost=6, limits=dict(time=20 if not big else 400)))
    for sh in ([1, 1], [2], [2, 1], [3]):
        for same in (True, False):
            J.append(dict(func='two_records', cfg=dict(shape=sh, same=same), cost=6, limits=dict(time=10 if not big else 200)))
    for i, algo in enumerate(('BinaryGA', 'CategoricalGA', 'CombinatoryGA')):
        for r in range(2):
            J.append(dict(func='two_runs', cfg=dict(algo=algo, seed=5 + 2 * i + r), cost=6, limits=dict(time=6 if not big else 100, validate=4)))
    s = 0
    for algo in ('bin', 'gray', 'cat', 'order'):
        for mode in ('best', 'random'):
            for r in range(3 if big else 1):
                s += 1
                J.append(dict(func='run', cfg=dict(algo=algo, seed=s, mode=mode, target=3 if s % 3 == 0 else None),
                              cost=8, limits=dict(time=8 if not big else 120, validate=5)))
    for algo in ('BinaryGA', 'CategoricalGA', 'CombinatoryGA'):
        for tg in (None, 3):
            s += 1
            J.append(dict(func='facade', cfg=dict(algo=algo, seed=s, target=tg), cost=8,
                          limits=dict(time=8 if not big else 120, validate=5)))
    J += soak_jobs('C10', tier, tables=('inf', 'mixed', 'low', 'large', 'tiny', 'bool'))
    return J
