"""C20: the Pareto rank is one plus the number of dominating individuals."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['MultiFitness.execute/assign_ranks/inferior/check_input', 'FFGAFitness.execute', 'VEGAHyperbolaFitness',
             'BaseFitness.calc_obj_func/execute', 'BinaryPopulation.get_phenotype']
BOUNDS = ('populations of 2..5 with arbitrary symbolic value vectors of 1..4 components (ties included; reals and integers), '
          'with and without conditions and input data, duplicates in the population, values a conversion would merge (2^60+1, infinities); two successive evaluations with a changed '
          'population; whole FFGA/VEGA runs of 3 generations with an arbitrary objective')
ASSUMPTIONS = ['the objective is a function of its arguments (same arguments, same values)']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def dominates(a, b):
    return And([x <= y for x, y in zip(a, b)] + [Or([x < y for x, y in zip(a, b)])])


def bits_of(k, w):
    return list(format(k, f'0{w}b'))


def mkpop(keys, w, cls='bin'):
    """population with the given numbers as chromosomes"""
    pop = bin_pop(max(1, len(keys)), ((0, 2 ** w - 1, 1),), gray=cls == 'gray')
    for k, ind in zip(keys, pop):
        ind['genotype'] = bits_of(k, w)
        ind['phenotype'] = None
    return pop


def judge(ctx, pop, val, what):
    for i, x in enumerate(pop):
        vx = val(x)
        want = 1 + count([dominates(val(y), vx) for y in pop if y is not x])
        ctx.check(eq(x['rank'], want), what)


def pen_of(cond):
    return dict(penalty=_g('DynamicPenalty')(), conditions=list(cond)) if cond else {}


def ranks(ctx, fitn, keys, m, kind='real', cond=None, data=None, w=2):
    """any values"""
    ctx.quiet()
    pop = mkpop(keys, w)
    ctx.quiet(False)
    mk = (lambda nm: ctx.int(nm, -3, 3)) if kind == 'int' else (lambda nm: ctx.real(nm, -5, 5))
    vals = {k: [mk(f'v{k}_{j}') for j in range(m)] for k in sorted(set(keys))}

    def f(*a):
        x = a[-1]
        if data is not None:
            ctx.check(len(a) == 2 and a[0] == data, 'input data reaches the ranking')
        v = vals[int(x[0])]
        return tuple(v) if kind == 'real' else list(v)
    fit = _g(fitn)(obj_function=f, input_data=data, **pen_of(cond))
    d = ga(pop, multi=True)
    fit.execute(d)
    judge(ctx, d.population, lambda x: vals[int(x['phenotype'][0])], 'rank = 1 + number of dominating individuals')
    ctx.observe('r', [x['rank'] for x in d.population])


def again(ctx, fitn, n, m, gone, new, cond=None, w=2):
    """next generation: some leave, others arrive; every rank is recomputed"""
    ctx.quiet()
    pop = mkpop(list(range(n)), w)
    ctx.quiet(False)
    vals = {k: [ctx.real(f'v{k}_{j}', -5, 5) for j in range(m)] for k in range(n + len(new))}
    fit = _g(fitn)(obj_function=lambda x: tuple(vals[int(x[0])]), **pen_of(cond))
    d = ga(pop, multi=True)
    fit.execute(d)
    d.update()
    for k in gone:
        for x in list(d.population):
            if int(x['phenotype'][0]) == k:
                d.population.remove(x)
    for k in new:
        c = d.population.get_empty_individ()
        c['genotype'] = bits_of(k, w)
        d.population.append(c)
    d.population.is_sorted = False
    fit.execute(d)
    judge(ctx, d.population, lambda x: vals[int(x['phenotype'][0])], 'ranks are recomputed for the whole population')


def run(ctx, algo, seed, gens=3, n=3, mode='best', cond=None):
    """components of FFGA / VEGA"""
    nv = len(cond) if cond else 2
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 4), nv)
    ctx.stream(seed)
    pop = bin_pop(n, ((0, 3, 1),))
    d = ga(pop, num_generations=gens, multi=True)
    if algo == 'FFGA':
        fit, sel, ng = _g('FFGAFitness'), _g('BalancedSelection')(), _g('MultiNewGeneration')(mode)
    else:
        fit, sel, ng = _g('VEGAHyperbolaFitness'), _g('VEGATournamentSelection')(2, 2), _g('NewGeneration')(mode)

    def each(t):
        judge(ctx, d.population, lambda x: f.value(list(x['phenotype'])), 'ranks in every generation')
    stepwise(ctx, d, fit(obj_function=f, **pen_of(cond)), sel, _g('OnePointCrossover')(), _g('BinStringMutation')('strong'),
             ng, gens, each)


def facade(ctx, algo, seed, gens=3, n=4):
    import baumeva
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 4), 2)
    ctx.stream(seed)
    kw = dict(tournament_size=2) if algo == 'VEGA' else {}
    d = getattr(baumeva, algo)(num_generations=gens, num_individ=n, gens=((0, 3, 1),), obj_function=f, is_print=False,
                               mutation_lvl=0.6, **kw).optimize()
    judge(ctx, d.population, lambda x: f.value(list(x['phenotype'])), 'ranks of the final population')


def many(ctx, fitn, m, at, n=3, kind='int'):
    """many objectives: the values at three places are arbitrary, the others equal"""
    ctx.quiet()
    pop = mkpop(list(range(n)), 2)
    ctx.quiet(False)
    vals = {k: [ctx.int(f'v{k}_{j}', 0, 2) if j in at else 1 for j in range(m)] for k in range(n)}
    d = ga(pop, multi=True)
    _g(fitn)(obj_function=lambda x: tuple(vals[int(x[0])])).execute(d)
    judge(ctx, d.population, lambda x: vals[int(x['phenotype'][0])], 'rank = 1 + number of dominating individuals')
    ctx.observe('r', [x['rank'] for x in d.population])


EXACT = [[2 ** 60, 2 ** 60 + 1, 2 ** 60 + 2], [10 ** 25, 10 ** 25 - 1, -10 ** 25], [0.1, 0.1 + 2 ** -54, 1e-300], [1, 1.0, True],
         [1e16, 1e16 + 2, 10 ** 16 + 1], [float('inf'), 1e308, -float('inf')]]


def exact(ctx, fitn, pool):
    """objective values whose difference is lost when they are converted or rounded"""
    ctx.quiet()
    pop = mkpop([0, 1, 2], 2)
    ctx.quiet(False)
    vals = {k: [ctx.choose(f'v{k}', EXACT[pool]), ctx.choose(f'w{k}', [EXACT[pool][0], 0])] for k in range(2)}
    vals[2] = [EXACT[pool][0], 0]
    d = ga(pop, multi=True)
    _g(fitn)(obj_function=lambda x: tuple(vals[int(x[0])])).execute(d)
    judge(ctx, d.population, lambda x: vals[int(x['phenotype'][0])], 'rank = 1 + number of dominating individuals')


def crowd(ctx, fitn, n, who):
    """large populations: one individual has arbitrary values, the others fixed ones (with ties and repeated individuals)"""
    w = max(1, (n - 1).bit_length())
    keys = [i if i % 9 else 0 for i in range(n)]
    keys[who] = n - 1
    ctx.quiet()
    pop = mkpop(keys, w)
    ctx.quiet(False)
    vals = {k: [(7 * k) % 5, (3 * k) % 4] for k in range(2 ** w)}
    vals[n - 1] = [ctx.int('a', -1, 5), ctx.int('b', -1, 4)]
    d = ga(pop, multi=True)
    _g(fitn)(obj_function=lambda x: tuple(vals[int(x[0])])).execute(d)
    judge(ctx, d.population, lambda x: vals[int(x['phenotype'][0])], 'rank = 1 + number of dominating individuals')
    ctx.observe('r', [x['rank'] for x in d.population])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=25 if not big else 400)
    for fitn in ('FFGAFitness', 'VEGAHyperbolaFitness'):
        for p in range(len(EXACT)):
            if fitn == 'FFGAFitness' or p not in (1, 5):    # (VEGA computes scores from the values)
                J.append(dict(func='exact', cfg=dict(fitn=fitn, pool=p), cost=3, limits=T))
        for keys, m, kind in (([0, 1], 1, 'real'), ([0, 1], 2, 'int'), ([1, 0], 3, 'real'), ([0, 1, 2], 2, 'real'),
                              ([2, 0, 1], 2, 'int'), ([0, 1, 0], 2, 'real'), ([1, 1, 2], 3, 'int'), ([0, 1, 2], 1, 'int'),
                              ([3, 1, 0, 2], 2, 'int'), ([0, 1], 4, 'real')):
            if kind == 'int' and len(keys) == 4 and fitn[0] == 'V' and not big:
                continue
            # the ordinary multi-objective call needs one score per value: with m == 1 the objective returns one value
            J.append(dict(func='ranks', cfg=dict(fitn=fitn, keys=keys, m=m, kind=kind), cost=len(keys) * m, limits=T))
        J.append(dict(func='ranks', cfg=dict(fitn=fitn, keys=[0, 1], m=3, cond=['optimize', '<=', 'optimize']), cost=5, limits=T))
        J.append(dict(func='ranks', cfg=dict(fitn=fitn, keys=[0, 1, 2], m=3, kind='int', cond=['!=', 'optimize', 'optimize']), cost=8, limits=T))
        J.append(dict(func='ranks', cfg=dict(fitn=fitn, keys=[0, 1], m=2, data={'k': 1}), cost=3, limits=T))
        J.append(dict(func='ranks', cfg=dict(fitn=fitn, keys=[0, 1], m=2, data=0), cost=3, limits=T))
        J.append(dict(func='again', cfg=dict(fitn=fitn, n=2, m=2, gone=[0], new=[2]), cost=6, limits=T))
        J.append(dict(func='again', cfg=dict(fitn=fitn, n=2, m=2, gone=[], new=[2]), cost=6, limits=T))
        J.append(dict(func='again', cfg=dict(fitn=fitn, n=3, m=2, gone=[0, 1], new=[]), cost=6, limits=T))
        J.append(dict(func='again', cfg=dict(fitn=fitn, n=2, m=3, gone=[1], new=[2], cond=['optimize', 'optimize', '<=']), cost=6, limits=T))
        for m in sizes([6, 9], 5, 40):
            for at in ([0, m - 1], [m // 2], [m - 2, m - 1]):
                J.append(dict(func='many', cfg=dict(fitn=fitn, m=m, at=at, n=2 if len(at) > 1 else 3), cost=3, limits=T))
        for n in sizes([12, 26], 6, 70):
            for who in (0, n // 2, n - 1):
                J.append(dict(func='crowd', cfg=dict(fitn=fitn, n=n, who=who), cost=4, limits=T))
    for algo in ('FFGA', 'VEGA'):
        for seed in (1, 2, 3):
            J.append(dict(func='run', cfg=dict(algo=algo, seed=seed, n=4 if algo == 'FFGA' else 5), cost=9, limits=T))
            J.append(dict(func='facade', cfg=dict(algo=algo, seed=seed), cost=9, limits=T))
        J.append(dict(func='run', cfg=dict(algo=algo, seed=1, mode='random', n=4), cost=9, limits=T))
        J.append(dict(func='run', cfg=dict(algo=algo, seed=1, n=4, cond=['optimize', '<=', 'optimize']), cost=9, limits=T))
    J += soak_jobs('C20', tier, kinds=('ffga', 'vega'))
    return J
