"""C21: the Pareto set is recorded in full and survives in FFGA."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['MultiGaData.update', 'BasePopulation.sort_by_dict', 'MultiNewGeneration.execute/add_best', 'MultiFitness.execute',
             'FFGAFitness', 'FFGA.optimize', 'VEGA.optimize']
BOUNDS = ('update: 1..4 generations of 1..4 individuals with arbitrary symbolic ranks; replacement: 1..4 parents with arbitrary '
          'ranks, 0..3 children; sets of up to 130 members; whole FFGA/VEGA component runs of 3 generations with arbitrary objective values on fixed draw '
          'streams')
ASSUMPTIONS = ['the records of the individuals of a generation are not changed after update until the next generation is built']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


VIS = ('genotype', 'phenotype', 'obj_score', 'feasible')


def vis(ind):
    return {k: (list(ind[k]) if isinstance(ind.get(k), (list, tuple)) else ind.get(k)) for k in VIS if k in ind}


def mkgen(ctx, t, n, ranks):
    ctx.quiet()
    w = 6 if n <= 8 else 12
    pop = bin_pop(n, ((0, 2 ** w - 1, 1),))
    ctx.quiet(False)
    for i, ind in enumerate(pop):
        ind['genotype'] = list(format((8 if w == 6 else 2 * n) * t + i, f'0{w}b'))
        ind['phenotype'] = None
    pop.get_phenotype()
    for i, ind in enumerate(pop):
        ind['rank'] = ranks[i]
        ind['score'] = 1 / (1 + ranks[i])
        ind['obj_score'] = [t + i / 4, 7 - i]
        ind['feasible'] = True
        ind['idx_individ'] = i
    return pop


def same_set(ctx, got, want, what):
    """got: recorded individuals; want: list of (condition, record): exactly those whose condition holds"""
    ctx.check(eq(len(got), count([c for c, _ in want])), what)
    for c, r in want:
        ctx.check(Implies(c, Or([eq(vis(g), r) for g in got])), what)
    for g in got:
        ctx.check(Or([And(c, eq(vis(g), r)) for c, r in want]), what)


def updates(ctx, shape, hi=3):
    d = None
    for t, n in enumerate(shape):
        rk = [ctx.int(f'r{t}_{i}', 1, hi) for i in range(n)]
        ctx.assume(Or([eq(r, 1) for r in rk]))          # somebody is never dominated
        pop = mkgen(ctx, t, n, rk)
        recs = [(eq(r, 1), dict(vis(x))) for r, x in zip(rk, pop)]
        if d is None:
            d = ga(pop, multi=True)
        else:
            d.population = pop
        d.update()
        ps = d.best_solution['pareto_set']
        same_set(ctx, ps, recs, 'the recorded Pareto set is exactly the individuals of rank 1')
        ctx.check(d.best_solution['idx_generation'] == t, 'generation in which the set last changed')
        ctx.check(d.num_generation_no_improve == 0, 'a changed Pareto set counts as an improvement')
        ctx.check(d.idx_generation == t + 1, 'generation counter')
        ctx.check(len(d.historical_best) == t + 1, 'one history entry per generation')
        same_set(ctx, list(d.historical_best[t]), recs, 'the history entry is the Pareto set of the generation')
        keep = [dict(vis(x)) for x in ps]
        for ind in pop:
            ind['genotype'][0] = '1'
            ind['phenotype'][0] = 99
            ind['obj_score'][0] = -50
            ind['rank'] = 1
            ind['feasible'] = False
        ctx.check(eq([vis(x) for x in d.best_solution['pareto_set']], keep), 'the recorded Pareto set is an independent copy')


def unchanged(ctx, n, reps):
    """the same Pareto set again and again, then another one"""
    rk = [ctx.int(f'r{i}', 1, 2) for i in range(n)]
    ctx.assume(Or([eq(r, 1) for r in rk]))
    d = ga(mkgen(ctx, 0, n, rk), multi=True)
    d.update()
    for k in range(reps):
        d.update()
        ctx.check(d.best_solution['idx_generation'] == 0, 'an unchanged Pareto set keeps its generation')
        ctx.check(d.num_generation_no_improve == k + 1, 'generations without change are counted')
        ctx.check(d.idx_generation == k + 2, 'generation counter')
    d.population = mkgen(ctx, 1, 2, [1, 2])
    d.update()
    ctx.check(d.best_solution['idx_generation'] == reps + 1, 'a changed set is recorded with its generation')
    ctx.check(d.num_generation_no_improve == 0, 'the count starts again')
    ctx.check([vis(x)['genotype'] for x in d.best_solution['pareto_set']] == [list('001000')], 'the new set is recorded')


def only_one_differs(ctx, what):
    """two sets that differ in one respect only are different sets"""
    d = ga(mkgen(ctx, 0, 2, [1, 1]), multi=True)
    d.update()
    p = mkgen(ctx, 0, 3 if what == 'more' else 1 if what == 'less' else 2, [1, 1, 1][:3 if what == 'more' else 1 if what == 'less' else 2])
    if what == 'last':
        p[1]['genotype'] = list('111111')
        p[1]['phenotype'] = [63]
    if what == 'first':
        p[0]['genotype'] = list('111111')
        p[0]['phenotype'] = [63]
    if what == 'score':
        p[1]['obj_score'] = [ctx.real('a', 50, 60), 6]
    d.population = p
    recs = [(True, dict(vis(x))) for x in p]
    d.update()
    same_set(ctx, d.best_solution['pareto_set'], recs, 'the recorded Pareto set is exactly the individuals of rank 1')
    ctx.check(d.best_solution['idx_generation'] == 1, 'a set that differs in any member has changed')
    ctx.check(d.num_generation_no_improve == 0, 'a set that differs in any member has changed')


def survive(ctx, n, nc, hi=3):
    """replacement keeps every individual of rank 1, whatever the ranks are"""
    rk = [ctx.int(f'r{i}', 1, hi) for i in range(n)]
    ctx.assume(Or([eq(r, 1) for r in rk]))
    pop = mkgen(ctx, 0, n, rk)
    recs = [(eq(r, 1), dict(vis(x))) for r, x in zip(rk, pop)]
    d = ga(pop, multi=True)
    d.update()
    d.children = d.population.get_empty_copy()
    kids = []
    for k in range(nc):
        c = d.population.get_empty_individ()
        c['genotype'] = list(format(32 + k, '06b')) if n <= 8 else list(format(4000 + k, '012b'))
        d.children.append(c)
        kids.append(list(c['genotype']))
    _g('MultiNewGeneration')('best').execute(d)
    for c, r in recs:
        ctx.check(Implies(c, Or([eq(vis(x), r) for x in d.population if x['score'] is not None])),
                  'every individual of rank 1 is in the next generation with its own record')
    for k in kids:
        ctx.check(any(x['genotype'] == k for x in d.population), 'all children are in the next generation')


def crowd(ctx, n, free, few=False):
    """large sets: the ranks of a few individuals are arbitrary, all others have rank 1 (few: rank 2 or more)"""
    rk = [ctx.choose(f'r{i}', [1, 2]) if i in free else 1 if not few or i == 1 else 2 + i % 3 for i in range(n)]
    pop = mkgen(ctx, 0, n, rk)
    recs = [dict(vis(x)) for r, x in zip(rk, pop) if r == 1]
    names = sorted(r['genotype'] for r in recs)
    d = ga(pop, multi=True)
    d.update()
    got = d.best_solution['pareto_set']
    ctx.check(sorted(g['genotype'] for g in got) == names, 'the recorded Pareto set is exactly the individuals of rank 1')
    by = {''.join(r['genotype']): r for r in recs}
    ctx.check(all(vis(g) == by[''.join(g['genotype'])] for g in got), 'the members are recorded with their own data')
    ctx.check(sorted(g['genotype'] for g in d.historical_best[0]) == names, 'the history entry is the Pareto set of the generation')
    d.update()
    ctx.check(d.best_solution['idx_generation'] == 0 and d.num_generation_no_improve == 1, 'an unchanged Pareto set keeps its generation')
    d.children = d.population.get_empty_copy()
    c = d.population.get_empty_individ()
    c['genotype'] = list(format(4000, '012b'))
    d.children.append(c)
    _g('MultiNewGeneration')('best').execute(d)
    now = {''.join(x['genotype']): vis(x) for x in d.population if x['score'] is not None}
    ctx.check(all(now.get(k) == r for k, r in by.items()), 'every individual of rank 1 is in the next generation with its own record')
    ctx.check(any(x['genotype'] == list(format(4000, '012b')) for x in d.population), 'all children are in the next generation')


def run(ctx, algo, seed, gens=3, n=4, early=10, cond=None):
    nv = len(cond) if cond else 2
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 4), nv)
    kw = dict(penalty=_g('DynamicPenalty')(), conditions=list(cond)) if cond else {}
    ctx.stream(seed)
    pop = bin_pop(n, ((0, 3, 1),))
    d = ga(pop, num_generations=gens, multi=True)
    if algo == 'FFGA':
        fit, sel, ng = _g('FFGAFitness'), _g('BalancedSelection')(), _g('MultiNewGeneration')('best')
    else:
        fit, sel, ng = _g('VEGAHyperbolaFitness'), _g('VEGATournamentSelection')(2, 2), _g('NewGeneration')('best')
    prev = [None, None]

    def key(rs):
        return sorted((str(r['genotype']) for r in rs))

    def each(t):
        recs = [(eq(x['rank'], 1), dict(vis(x))) for x in d.population]
        ps = d.best_solution['pareto_set']
        same_set(ctx, ps, recs, 'the recorded Pareto set is exactly the individuals of rank 1')
        if algo == 'FFGA' and prev[0] is not None:
            for r in prev[0]:
                ctx.check(Or([eq(vis(x), r) for x in d.population]), 'every individual of rank 1 is in the next generation')
        now = [dict(vis(x)) for x in ps]
        g = d.best_solution['idx_generation']
        if prev[1] is None or key(now) != prev[1]:
            ctx.check(g == t, 'a changed set is recorded with its generation')
        ctx.check(0 <= g <= t, 'generation of the last change')
        ctx.check(len(d.historical_best) == t + 1, 'one history entry per generation')
        prev[0], prev[1] = now, key(now)
    stepwise(ctx, d, fit(obj_function=f, **kw), sel, _g('OnePointCrossover')(), _g('BinStringMutation')('strong'), ng, gens, each)


def facade(ctx, algo, seed, gens=3, n=4):
    """the returned Pareto set against the final population"""
    import baumeva
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 4), 2)
    ctx.stream(seed)
    kw = dict(tournament_size=2) if algo == 'VEGA' else {}
    d = getattr(baumeva, algo)(num_generations=gens, num_individ=n, gens=((0, 3, 1),), obj_function=f, is_print=False,
                               mutation_lvl=0.6, **kw).optimize()
    recs = [(eq(x['rank'], 1), dict(vis(x))) for x in d.population]
    same_set(ctx, d.best_solution['pareto_set'], recs, 'the returned Pareto set is exactly the individuals of rank 1')
    for x in d.best_solution['pareto_set']:
        ctx.check(eq(list(x['obj_score']), list(f.value(list(x['phenotype'])))), 'members carry the values of the objective')
    ctx.check(len(d.historical_best) == gens, 'one history entry per generation')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=25 if not big else 400)
    for sh in ([1], [2], [3], [4], [2, 2], [1, 3], [3, 1], [3, 2], [2, 1, 2]):
        J.append(dict(func='updates', cfg=dict(shape=sh), cost=sum(sh), limits=T))
    for n in (1, 2, 3):
        J.append(dict(func='unchanged', cfg=dict(n=n, reps=3), cost=n, limits=T))
    for w in ('more', 'less', 'last', 'first', 'score'):
        J.append(dict(func='only_one_differs', cfg=dict(what=w), limits=T))
    for n in (9, 12):
        J.append(dict(func='survive', cfg=dict(n=n, nc=1, hi=1), cost=3, limits=T))
    for n, nc in ((1, 1), (2, 1), (3, 2), (4, 1), (3, 0), (4, 3)):
        J.append(dict(func='survive', cfg=dict(n=n, nc=nc), cost=n, limits=T))
    # more elites than the replacement's num_elites of the random mode, or than any new constant
    for n in sizes([11, 12, 40, 70], 5, 130):
        J.append(dict(func='crowd', cfg=dict(n=n, free=[0, n // 2, n - 1]), cost=3, limits=T))
        J.append(dict(func='crowd', cfg=dict(n=n, free=[0, n // 2, n - 1], few=True), cost=3, limits=T))
    for algo in ('FFGA', 'VEGA'):
        for seed in (1, 2, 3):
            J.append(dict(func='run', cfg=dict(algo=algo, seed=seed, n=4 if algo == 'FFGA' else 5), cost=9, limits=T))
            J.append(dict(func='facade', cfg=dict(algo=algo, seed=seed), cost=9, limits=T))
        J.append(dict(func='run', cfg=dict(algo=algo, seed=2, n=4, cond=['optimize', '<=', 'optimize']), cost=9, limits=T))
    J += soak_jobs('C21', tier, kinds=('ffga', 'vega'))
    return J
