"""C12: scores order solutions as documented."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['HyperbolaFitness.get_fitness_score', 'VEGAHyperbolaFitness.get_fitness_score', 'FFGAFitness.get_fitness_score/execute',
             'BaseFitness.execute/get_penalty_value/set_obj_score', 'MultiFitness.execute/set_obj_score/assign_ranks']
BOUNDS = ('pairs of individuals, objective values -100..100 and -1e9..1e9, penalties up to half of that and targets symbolic; 1..3 objectives with the '
          'conditions in several positions; FFGA populations of 2..3 over two evaluations, and of 6 and 16 (plus around new constants) with one free member')
ASSUMPTIONS = ['differences below 1e-6 are treated as ties (floating-point rounding)']
EPS = 1e-6


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def stub_penalty():
    """a penalty of the user's own making: the sum of the condition values (all taken >= 0)"""
    class Sum(_g('BasePenalty')):
        def get_sum_conditional_func(self, conditionals, values):
            pass

        def execute(self, conditionals, values, **k):
            t = 0
            for v in values:
                t = t + v
            return t
    return Sum()


def order_ok(ctx, key_a, key_b, sa, sb):
    ctx.check(Implies(key_a < key_b - EPS, sa > sb), 'a smaller distance/objective plus penalty gives a higher score')
    ctx.check(Implies(sa > sb, key_a < key_b + EPS), 'a higher score means a smaller distance/objective plus penalty')
    ctx.check(Implies(eq(key_a, key_b), close(sa, sb)), 'equal distance/objective plus penalty gives equal scores')


def dist(v, t):
    return v if t is None else ite(v >= t, v - t, t - v)


def target_of(ctx, target, tag='t'):
    if target == 'sym':
        return ctx.real(tag, -50, 50)
    return target


def single(ctx, target, cond=None, span=100):
    pop = cat_pop([[0], [1]], gens=([0, 1],))
    nc = len(cond) if cond else 1
    k = cond.index('optimize') if cond else 0
    vals = [[ctx.real(f'v{i}_{j}', -span if j == k else 0, span if j == k else span / 2) for j in range(nc)] for i in range(2)]
    t = target_of(ctx, target)
    kw = dict(penalty=stub_penalty(), conditions=list(cond)) if cond else {}
    d = ga(pop)
    _g('HyperbolaFitness')(obj_function=lambda x: tuple(vals[x[0]]) if cond else vals[x[0]][0], obj_value=t, **kw).execute(d)
    a, b = [x for x in pop if x['genotype'] == [0]][0], [x for x in pop if x['genotype'] == [1]][0]
    key = []
    for v in vals:
        s = dist(v[k], t)
        for j in range(nc):
            if j != k:
                s = s + v[j]
        key.append(s)
    order_ok(ctx, key[0], key[1], a['score'], b['score'])
    if t is not None:
        for v, ind, ky in zip(vals, (a, b), key):
            ctx.check(Implies(eq(ky, 0), close(ind['score'], 1)), 'an unpenalised exact hit scores 1')
            ctx.check(And(ind['score'] > 0, le_tol(ind['score'], 1)), 'scores with a target lie in (0, 1]')
    ctx.observe('s', [a['score'], b['score']])


def single_int(ctx, target):
    """integer objective values"""
    pop = cat_pop([[0], [1]], gens=([0, 1],))
    vals = [ctx.int(f'v{i}', -30, 30) for i in range(2)]
    _g('HyperbolaFitness')(obj_function=lambda x: vals[x[0]], obj_value=target).execute(ga(pop))
    a, b = pop[0], pop[1]
    order_ok(ctx, dist(vals[0], target), dist(vals[1], target), a['score'], b['score'])
    if target is not None:
        ctx.check(Implies(eq(vals[0], target), eq(a['score'], 1)), 'an exact hit scores 1')


def vega(ctx, nobj, target, cond=None, span=100):
    ctx.quiet()
    pop = bin_pop(2, ((0, 1, 1),))
    ctx.quiet(False)
    for i, ind in enumerate(pop):
        ind['genotype'] = [str(i)]
        ind['phenotype'] = None
    cs = cond or ['optimize'] * nobj
    pos = [i for i, c in enumerate(cs) if c == 'optimize']
    vals = [[ctx.real(f'v{i}_{j}', -span if j in pos else 0, span if j in pos else span / 2) for j in range(len(cs))] for i in range(2)]
    ts = None if target is None else [target_of(ctx, x, f't{i}') for i, x in enumerate(target)]
    kw = dict(penalty=stub_penalty(), conditions=list(cond)) if cond else {}
    d = ga(pop, multi=True)
    inds = list(pop)
    _g('VEGAHyperbolaFitness')(obj_function=lambda x: tuple(vals[0 if x[0] == 0 else 1]), obj_value=ts, **kw).execute(d)
    for ind in inds:
        ctx.check(len(ind['score']) == len(pos), 'one score per objective')
    pen = []
    for v in vals:
        s = 0
        for j in range(len(cs)):
            if j not in pos:
                s = s + v[j]
        pen.append(s)
    for m, j in enumerate(pos):
        t = ts[m] if ts else None
        key = [dist(v[j], t) + p for v, p in zip(vals, pen)]
        order_ok(ctx, key[0], key[1], inds[0]['score'][m], inds[1]['score'][m])
        if t is not None:
            ctx.check(Implies(eq(key[0], 0), close(inds[0]['score'][m], 1)), 'an unpenalised exact hit scores 1')
    ctx.observe('s', [x['score'] for x in inds])


def ffga(ctx, n, cond=None):
    """score is 1/(1+rank) of the current rank, in every generation"""
    ctx.quiet()
    pop = bin_pop(n, ((0, 3, 1),))
    ctx.quiet(False)
    for i, ind in enumerate(pop):
        ind['genotype'] = list(format(i, '02b'))
        ind['phenotype'] = None
    f = ctx.func('f', lambda nm: ctx.real(nm, 0, 4), len(cond) if cond else 2)
    kw = dict(penalty=stub_penalty(), conditions=list(cond)) if cond else {}
    fit = _g('FFGAFitness')(obj_function=f, **kw)
    d = ga(pop, multi=True)

    def judge():
        for ind in d.population:
            ctx.check(close(ind['score'], 1 / (1 + ind['rank'])), 'FFGA score is 1/(1+rank) of the current rank')
    fit.execute(d)
    judge()
    d.update()
    # next generation: one member leaves, a new one arrives
    gone = d.population.pop(0)
    c = d.population.get_empty_individ()
    c['genotype'] = ['1', '1']
    d.population.append(c)
    del gone
    d.population.is_sorted = False
    fit.execute(d)
    judge()
    ctx.observe('s', [x['score'] for x in d.population])


def chain(ctx, n, width):
    """larger populations: long dominance chains with one free member"""
    from baumeva.ga import BinaryPopulation
    ctx.quiet()
    pop = bin_pop(n, ((0, 2 ** width - 1, 1),))
    ctx.quiet(False)
    for i, ind in enumerate(pop):
        ind['genotype'] = list(format(i, f'0{width}b'))
        ind['phenotype'] = None
    a = ctx.real('a', -1, n + 1)
    val = lambda k: (a, a) if k == 0 else (float(k), float(k) + (k % 3 == 0))
    d = ga(pop, multi=True)
    _g('FFGAFitness')(obj_function=lambda x: val(int(x[0] + 0.5))).execute(d)
    for ind in d.population:
        k = int(ind['phenotype'][0] + 0.5)
        v = val(k)
        r = 1 + count([And(val(j)[0] <= v[0], val(j)[1] <= v[1], Or(val(j)[0] < v[0], val(j)[1] < v[1])) for j in range(n) if j != k])
        ctx.check(close(ind['score'], 1 / (1 + r)), 'FFGA score is 1/(1+rank)')
    ctx.observe('s', [x['score'] for x in d.population])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=20 if not big else 300)
    for t in (None, 0, 3.5, -2, 'sym'):
        J.append(dict(func='single', cfg=dict(target=t), cost=3, limits=T))
        for c in (['optimize', '<='], ['<=', 'optimize', '!=']):
            J.append(dict(func='single', cfg=dict(target=t, cond=c), cost=4, limits=T))
        if t != 'sym':
            J.append(dict(func='single_int', cfg=dict(target=t), limits=T))
    for t in (None, [0, 0], [3.5, -1], ['sym', 0]):
        J.append(dict(func='vega', cfg=dict(nobj=2, target=t), cost=4, limits=T))
        for c in (['optimize', '<=', 'optimize'], ['!=', 'optimize', 'optimize'], ['optimize', 'optimize', '<=', '!=']):
            J.append(dict(func='vega', cfg=dict(nobj=2, target=t, cond=c), cost=5, limits=T))
    # large and very large values
    for t in (None, 0, 3.5, 2e5):
        for c in (None, ['<=', 'optimize']):
            J.append(dict(func='single', cfg=dict(target=t, cond=c, span=1e9), cost=4, limits=T))
    for t in (None, [0, 5e4]):
        for c in (None, ['optimize', '<=', 'optimize']):
            J.append(dict(func='vega', cfg=dict(nobj=2, target=t, cond=c, span=1e9), cost=4, limits=T))
    for t in (None, [1, 0, 2]):
        J.append(dict(func='vega', cfg=dict(nobj=3, target=t), cost=5, limits=T))
        J.append(dict(func='vega', cfg=dict(nobj=3, target=t, cond=['optimize', '<=', 'optimize', 'optimize', '!=']), cost=5, limits=T))
    for t in (None, [1, 0, 2, -3]):
        J.append(dict(func='vega', cfg=dict(nobj=4, target=t, cond=['!=', 'optimize', 'optimize', 'optimize', 'optimize']), cost=5, limits=T))
    for n in sizes([6, 16] + ([40] if big else []), 4, 70):
        J.append(dict(func='chain', cfg=dict(n=n, width=n.bit_length()), cost=n, limits=dict(time=40 if not big else 300, validate=4)))
    J.append(dict(func='ffga', cfg=dict(n=2), cost=4, limits=T))
    J.append(dict(func='ffga', cfg=dict(n=3), cost=9, limits=T))
    J.append(dict(func='ffga', cfg=dict(n=2, cond=['optimize', '<=', 'optimize']), cost=9, limits=T))
    J += soak_jobs('C12', tier, kinds=('bin', 'gray', 'cat', 'ord', 'ffga'))
    return J
