"""C14: dynamic and adaptive penalties follow their formula, are zero when feasible and depend on the individual alone."""
from itertools import product
from .common import *

FUNCTIONS = ['DynamicPenalty.get_sum_conditional_func/execute', 'AdaptivePenalty.get_sum_conditional_func/execute',
             'BasePenalty.execute', 'BaseFitness.execute/get_penalty_value', 'HyperbolaFitness.get_fitness_score',
             'GaData.update', 'MultiFitness.execute']
BOUNDS = ('condition lists of 1..4 conditions with every combination of signs up to 3; values symbolic reals/integers in '
          '-1000..1000; delta and c symbolic, alpha/betta from a list; generation 0..12 and larger, 1..3 individuals in a '
          'row on one penalty object; whole runs of 4 generations')
ASSUMPTIONS = ['powers with a non-integer exponent are decided on chosen values only']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def viol(c, v):
    if c == '!=':
        return ite(v >= 0, v, 0 - v)
    return ite(v > 0, v, 0)


def power(x, b):
    if isinstance(b, int):
        r = 1
        for _ in range(b):
            r = r * x
        return r
    return x ** b


def total(cond, vals, b):
    s = 0
    for c, v in zip(cond, vals):
        s = s + power(viol(c, v), b)
    return s


def feas(cond, vals):
    return And([v <= 0 if c == '<=' else eq(v, 0) for c, v in zip(cond, vals)])


GRID = [-7.25, -1, -0.001, 0, 0.0004, 0.5, 1, 3, 12.5]


def draw_vals(ctx, cond, kind, tag):
    if kind == 'grid':
        return [ctx.choose(f'{tag}_{j}', GRID) for j in range(len(cond))]
    mk = ctx.int if kind == 'int' else ctx.real
    return [mk(f'{tag}_{j}', -1000, 1000) for j in range(len(cond))]


def dynamic(ctx, cond, kind, t, par=None, n=1):
    """par None: delta and c symbolic, alpha=betta=2"""
    if par is None:
        de, c, al, be = ctx.real('delta', 0, 20), ctx.real('c', 0, 5), 2, 2
        p = _g('DynamicPenalty')(delta=de, c=c)
    else:
        de, c, al, be = par
        p = _g('DynamicPenalty')(delta=de, c=c, alpha=al, betta=be)
    for i in range(n):
        v = draw_vals(ctx, cond, kind, f'v{i}')
        got = p.execute(conditionals=list(cond), values=list(v), iter_generation=t)
        want = de * power(c * t, al) * total(cond, v, be)
        ctx.check(rclose(got, want), 'dynamic penalty is delta*(c*t)^alpha * sum violation^betta')
        ctx.check(Implies(feas(cond, v), eq(got, 0)), 'no penalty without violations')
        ctx.observe(f'p{i}', got)


def dynamic_default(ctx, cond, t):
    v = draw_vals(ctx, cond, 'real', 'v')
    got = _g('DynamicPenalty')().execute(list(cond), list(v), t)
    ctx.check(rclose(got, (0.5 * t) ** 2 * total(cond, v, 2)), 'documented default parameters of the dynamic penalty')


def lam(t, feasible, b1, b2):
    if t == 0:
        return 0
    return ite(feasible, 10 / b1, 10 * b2)


def adaptive(ctx, cond, kind, t, par=None, n=1):
    if par is None:
        de, b1, b2, be = ctx.real('delta', 0, 20), 1.1, 1.2, 2
        p = _g('AdaptivePenalty')(delta=de)
    else:
        de, b1, b2, be = par
        p = _g('AdaptivePenalty')(delta=de, betta_1=b1, betta_2=b2, betta=be)
    for i in range(n):
        v = draw_vals(ctx, cond, kind, f'v{i}')
        fb = ctx.bool(f'best{i}')
        got = p.execute(conditionals=list(cond), values=list(v), best_individ={'feasible': fb}, iter_generation=t)
        want = de * lam(t, fb, b1, b2) * total(cond, v, be)
        ctx.check(rclose(got, want), 'adaptive penalty is delta*lambda * sum violation^betta')
        ctx.check(Implies(feas(cond, v), eq(got, 0)), 'no penalty without violations')
        ctx.observe(f'p{i}', got)


def key(score, target):
    """invert the hyperbola"""
    return 1 / score - 1 if target is not None else 0 - score


def fit_wired(ctx, pname, cond, t, target, n=2, fitn='HyperbolaFitness'):
    """the penalty that reaches the score of each individual of a population, at generation t"""
    multi = fitn != 'HyperbolaFitness'
    full = list(cond)
    k = full.index('optimize')
    cs = [c for c in full if c != 'optimize']
    pop = cat_pop([[i] for i in range(n)], gens=([0, 1, 2],))
    vals = [[ctx.real(f'v{i}_{j}', -20, 20) for j in range(len(full))] for i in range(n)]
    d = ga(pop)
    d.idx_generation = t
    fb = ctx.bool('best')
    d.best_solution = {'feasible': fb}
    p = _g(pname)()
    fit = _g(fitn)(obj_function=lambda x: tuple(vals[x[0]]), obj_value=target, penalty=p, conditions=full)
    fit.execute(d)
    for i in range(n):
        ind = [x for x in pop if x['genotype'] == [i]][0]
        cv = [v for j, v in enumerate(vals[i]) if j != k]
        m = (0.5 * t) ** 2 if pname == 'DynamicPenalty' else lam(t, fb, 1.1, 1.2)
        want = m * total(cs, cv, 2)
        o = vals[i][k]
        if target is not None:
            o = ite(o >= target, o - target, target - o)
            ctx.check(close(ind['score'] * (1 + o + want), 1, 1e-7), 'the score carries exactly the penalty of the formula')
        else:
            ctx.check(close(0 - ind['score'], o + want, 1e-7), 'the score carries exactly the penalty of the formula')
    ctx.observe('s', [x['score'] for x in pop])


def vega_wired(ctx, cond, t, target):
    """multi-objective runs charge the same penalty to every objective"""
    ctx.quiet()
    pop = bin_pop(2, ((0, 1, 1),))
    ctx.quiet(False)
    for i, ind in enumerate(pop):
        ind['genotype'] = [str(i)]
        ind['phenotype'] = None
    pos = [i for i, c in enumerate(cond) if c == 'optimize']
    cs = [c for c in cond if c != 'optimize']
    vals = [[ctx.real(f'v{i}_{j}', -20, 20) for j in range(len(cond))] for i in range(2)]
    d = ga(pop, multi=True)
    d.idx_generation = t
    inds = list(pop)
    _g('VEGAHyperbolaFitness')(obj_function=lambda x: tuple(vals[0 if x[0] == 0 else 1]), obj_value=target,
                               penalty=_g('DynamicPenalty')(), conditions=list(cond)).execute(d)
    for ind, v in zip(inds, vals):
        want = (0.5 * t) ** 2 * total(cs, [x for j, x in enumerate(v) if j not in pos], 2)
        for m, j in enumerate(pos):
            o = v[j]
            if target is not None:
                o = ite(o >= target[m], o - target[m], target[m] - o)
                ctx.check(close(ind['score'][m] * (1 + o + want), 1, 1e-7), 'each objective score carries the penalty of the formula')
            else:
                ctx.check(close(0 - ind['score'][m], o + want, 1e-7), 'each objective score carries the penalty of the formula')


def run(ctx, pname, cond, seed, gens=4, target=0, n=3):
    """a whole run of the documented components: every newly evaluated individual gets the penalty of its generation"""
    full = list(cond)
    k = full.index('optimize')
    cs = [c for c in full if c != 'optimize']
    f = ctx.func('f', lambda nm: ctx.real(nm, -8, 8), len(full))
    pop = cat_pop([[i, i] for i in range(n)], gens=([0, 1, 2, 3], [0, 1, 2, 3]))
    d = ga(pop, num_generations=gens)
    real = _g('HyperbolaFitness')(obj_function=f, obj_value=target, penalty=_g(pname)(), conditions=full)

    class Fit:
        t = 0

        @staticmethod
        def execute(d):
            new = [x for x in d.population if x['score'] is None]
            fb = d.best_solution['feasible'] if Fit.t else None
            real.execute(d)
            for ind in new:
                vs = f.value(list(ind['genotype']))
                tt = total(cs, [v for j, v in enumerate(vs) if j != k], 2)
                o = vs[k]
                o = ite(o >= target, o - target, target - o)
                m = (0.5 * Fit.t) ** 2 if pname == 'DynamicPenalty' else lam(Fit.t, fb, 1.1, 1.2)
                ctx.check(close(ind['score'] * (1 + o + m * tt), 1, 1e-7), 'scores carry the penalty of their generation')
            Fit.t += 1
    ctx.stream(seed)
    stepwise(ctx, d, Fit, _g('TournamentSelection')(tournament_size=2), _g('UniformCrossover')(),
             _g('CategoricalMutation')('strong'), _g('NewGeneration')('best'), gens, lambda t: None)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=25 if not big else 300)
    conds = [list(c) for r in (1, 2, 3) for c in product(['<=', '!='], repeat=r)] + [['<=', '!=', '!=', '<=']]
    for c in conds:
        r = len(c)
        for kind in ('real', 'int') if r <= 2 else ('real',):
            for t in (0, 1, 3):
                if r == 3 and t != 3 and not big:
                    continue
                J.append(dict(func='dynamic', cfg=dict(cond=c, kind=kind, t=t), cost=r, limits=T))
                J.append(dict(func='adaptive', cfg=dict(cond=c, kind=kind, t=t), cost=r, limits=T))
    ts = sizes([2, 4, 5, 10, 11, 12, 50, 51, 100, 101, 1000], 0, 100000)
    for t in ts:
        for c in (['<='], ['!=']):
            J.append(dict(func='dynamic', cfg=dict(cond=c, kind='real', t=t, par=[1, 0.5, 2, 2]), limits=T))
            J.append(dict(func='adaptive', cfg=dict(cond=c, kind='real', t=t), limits=T))
    for par in ([1, 0.5, 1, 1], [2, 1.5, 3, 1], [0.5, 2, 0, 3], [3, 0.1, 1.5, 2], [10, 1, 0.5, 1], [1, 1, 2, 4]):
        J.append(dict(func='dynamic', cfg=dict(cond=['<=', '!='], kind='real', t=3, par=par), cost=2, limits=T))
        J.append(dict(func='dynamic', cfg=dict(cond=['!=', '<='], kind='real', t=1, par=par), cost=2, limits=T))
    for par in ([1, 0.5, 2, 1.5], [2, 0.5, 1.2, 0.5], [1, 1, 2, 2.5]):
        J.append(dict(func='dynamic', cfg=dict(cond=['<=', '!='], kind='grid', t=2, par=par), cost=2, limits=T))
    for par in ([1, 1.1, 1.2, 1], [2, 1.5, 1.2, 3], [0.5, 5, 2, 2], [7, 1.01, 20, 1], [1, 2, 3, 4]):
        J.append(dict(func='adaptive', cfg=dict(cond=['<=', '!='], kind='real', t=2, par=par), cost=2, limits=T))
        J.append(dict(func='adaptive', cfg=dict(cond=['!=', '<='], kind='real', t=1, par=par), cost=2, limits=T))
    for par in ([1, 1.1, 1.2, 1.5], [3, 2, 1.2, 0.5]):
        J.append(dict(func='adaptive', cfg=dict(cond=['<=', '!='], kind='grid', t=2, par=par), cost=2, limits=T))
    for fn in ('dynamic', 'adaptive'):
        J.append(dict(func=fn, cfg=dict(cond=['<='], kind='real', t=2, n=3), cost=3, limits=T))
        J.append(dict(func=fn, cfg=dict(cond=['!=', '<='], kind='real', t=1, n=2), cost=3, limits=T))
    for c in (['<='], ['!='], ['<=', '!=']):
        for t in (1, 4):
            J.append(dict(func='dynamic_default', cfg=dict(cond=c, t=t), limits=T))
    for c in (['optimize', 'optimize', '<='], ['!=', 'optimize', 'optimize'], ['optimize', '<=', 'optimize', '!=']):
        for t in (0, 1, 3):
            for tg in (None, [1.5, 0]):
                J.append(dict(func='vega_wired', cfg=dict(cond=c, t=t, target=tg), cost=4, limits=T))
    for pn in ('DynamicPenalty', 'AdaptivePenalty'):
        for c in (['optimize', '<='], ['<=', 'optimize'], ['!=', 'optimize', '<=']):
            for t in (0, 1, 2, 5):
                for tg in (None, 1.5):
                    if t in (0, 5) and tg is None and not big:
                        continue
                    J.append(dict(func='fit_wired', cfg=dict(pname=pn, cond=c, t=t, target=tg, n=2 if len(c) == 2 else 1),
                                  cost=4, limits=T))
        for seed in (1, 2, 3):
            J.append(dict(func='run', cfg=dict(pname=pn, cond=['optimize', '<='], seed=seed, gens=3 if not big else 5,
                                               n=3 if not big else 4), cost=9, limits=T))
    return J
