"""C15: the static penalty applies the coefficient of the violated interval."""
from itertools import product
from .common import *

FUNCTIONS = ['StaticPenalty.__init__/get_sum_conditional_func/execute', 'BasePenalty.execute',
             'BaseFitness.get_penalty_value/execute']
BOUNDS = ('1..3 conditions with every combination of signs, 1..3 intervals per condition (bounds and coefficients concrete in '
          'several shapes or symbolic, last interval possibly unbounded), violations symbolic reals and integers, up to 3 '
          'individuals in a row on one penalty object (also with other conditions), any generation')
ASSUMPTIONS = ['intervals of one condition do not overlap']
INF = float('inf')


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


# table shape -> (intervals, coefficients)
SHAPES = {
    'one': ([(0, 1000)], [7.0]),
    'two': ([(0, 2), (2, 1000)], [3, 50]),
    'doc': ([(0.001, 0.01), (0.01, 0.1), (0.1, 500)], [50, 100, 500]),
    'gap': ([(1, 3), (5, 9)], [2, 11]),
    'rev': ([(4, 900), (0, 4)], [10, 0.5]),
    'zero': ([(0, 1), (1, 900)], [0, 4]),
    'inf': ([(0, 10), (10, INF)], [2, 6]),
}


def tables(ctx, shapes):
    """shapes: per condition (equality shape, inequality shape)"""
    iv = [{}, {}]
    co = [{}, {}]
    for i, pair in enumerate(shapes):
        for q in (0, 1):
            if pair[q] == 'sym':
                a, b, c = ctx.real(f'a{i}{q}', 0, 5), ctx.real(f'b{i}{q}', 5, 10), ctx.real(f'c{i}{q}', 10, 50)
                iv[q][i] = [(a, b), (b, c)]
                co[q][i] = [ctx.real(f'r{i}{q}', 0, 20), ctx.real(f's{i}{q}', 0, 20)]
            elif pair[q]:
                iv[q][i], co[q][i] = [tuple(x) for x in SHAPES[pair[q]][0]], list(SHAPES[pair[q]][1])
    return iv, co


def mk(iv, co):
    return _g('StaticPenalty')(equality_intervals=iv[0], equality_r_coef=co[0], inequality_intervals=iv[1],
                               inequality_r_coef=co[1])


def lt(a, b):
    if isinstance(b, float) and b == INF:
        return True
    return a < b


def expected(cond, vals, iv, co):
    """(every violation lies strictly inside an interval, the penalty then)"""
    inside, tot = [], 0
    for i, (c, v) in enumerate(zip(cond, vals)):
        q = 0 if c == '!=' else 1
        size = ite(v >= 0, v, 0 - v) if q == 0 else v
        sat = eq(v, 0) if q == 0 else v <= 0
        hit, amount = [], 0
        for (a, b), r in zip(iv[q][i], co[q][i]):
            h = And(a < size, lt(size, b))
            hit.append(h)
            amount = amount + ite(And(h, Not(sat)), r * size * r * size, 0)
        inside.append(Or([sat] + hit))
        tot = tot + amount
    return And(inside), tot


def formula(ctx, cond, shapes, kind='real', n=1, flip=False):
    iv, co = tables(ctx, shapes)
    import copy
    p = mk(iv, co)
    first = list(cond)
    for i in range(n):
        if flip:            # the same penalty object, the conditions of another problem
            cond = first if i % 2 == 0 else [{'<=': '!=', '!=': '<='}[c] for c in first]
        m = ctx.int if kind == 'int' else ctx.real
        v = [m(f'v{i}_{j}', -1000, 1000) for j in range(len(cond))]
        ok, want = expected(cond, v, iv, co)
        out = []
        err = ctx.raises(lambda: out.append(p.execute(conditionals=list(cond), values=list(v))))
        if err:
            ctx.check(Not(ok), 'an error only for a violation outside every declared interval')
            ctx.cover('rejected')
        else:
            ctx.check(ok, 'a violation outside every declared interval raises an error')
            ctx.check(rclose(out[0], want), 'static penalty is the sum of (coefficient * violation)^2')
            ctx.observe(f'p{i}', out[0])
            ctx.cover('accepted')


def wired(ctx, cond, t, target, n=2):
    """through the fitness: keys of the tables are positions among the conditions only"""
    full = list(cond)
    k = full.index('optimize')
    cs = [c for c in full if c != 'optimize']
    shapes = [('two', 'rev'), ('rev', 'two')][:len(cs)]
    iv, co = tables(ctx, shapes)
    pop = cat_pop([[i] for i in range(n)], gens=([0, 1, 2],))
    vals = [[ctx.real(f'v{i}_{j}', -100, 100) for j in range(len(full))] for i in range(n)]
    d = ga(pop)
    d.idx_generation = t
    d.best_solution = {'feasible': t % 2 == 0}
    for i in range(n):
        ok, _ = expected(cs, [v for j, v in enumerate(vals[i]) if j != k], iv, co)
        ctx.assume(ok)
    _g('HyperbolaFitness')(obj_function=lambda x: tuple(vals[x[0]]), obj_value=target, penalty=mk(iv, co),
                           conditions=full).execute(d)
    for i in range(n):
        ind = [x for x in pop if x['genotype'] == [i]][0]
        _, want = expected(cs, [v for j, v in enumerate(vals[i]) if j != k], iv, co)
        o = vals[i][k]
        if target is not None:
            o = ite(o >= target, o - target, target - o)
            ctx.check(close(ind['score'] * (1 + o + want), 1, 1e-7), 'the score carries exactly the static penalty')
        else:
            ctx.check(close(0 - ind['score'], o + want, 1e-7), 'the score carries exactly the static penalty')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=25 if not big else 300)
    names = list(SHAPES)
    for c in ('<=', '!='):
        for s in names + ['sym']:
            other = 'one' if s != 'one' else 'two'
            sh = [[s, other]] if c == '!=' else [[other, s]]
            J.append(dict(func='formula', cfg=dict(cond=[c], shapes=sh), cost=2, limits=T))
            if s != 'sym':
                J.append(dict(func='formula', cfg=dict(cond=[c], shapes=sh, kind='int'), cost=2, limits=T))
                J.append(dict(func='formula', cfg=dict(cond=[c], shapes=sh, n=2), cost=4, limits=T))
                J.append(dict(func='formula', cfg=dict(cond=[c], shapes=sh, n=2, flip=True, kind='int' if s == 'one' else 'real'), cost=4, limits=T))
    for r in (2, 3):
        for cs in product(['<=', '!='], repeat=r):
            sh = [['two', 'rev'], ['gap', 'two'], ['rev', 'doc']][:r]
            J.append(dict(func='formula', cfg=dict(cond=list(cs), shapes=sh), cost=5, limits=T))
            # tables only for the conditions that need them
            sh2 = [[p[0], None] if c == '!=' else [None, p[1]] for c, p in zip(cs, sh)]
            J.append(dict(func='formula', cfg=dict(cond=list(cs), shapes=sh2), cost=5, limits=T))
    J.append(dict(func='formula', cfg=dict(cond=['<=', '!='], shapes=[['one', 'two'], ['two', 'one']], n=2), cost=8, limits=T))
    if big:
        J.append(dict(func='formula', cfg=dict(cond=['<=', '!='], shapes=[['sym', 'sym'], ['sym', 'sym']]), cost=9, limits=T))
        J.append(dict(func='formula', cfg=dict(cond=['!='], shapes=[['doc', 'two']], n=3), cost=9, limits=T))
    for c in (['optimize', '<='], ['!=', 'optimize'], ['<=', 'optimize', '!=']):
        for t in (0, 3):
            for tg in (None, 0, 1.5):
                J.append(dict(func='wired', cfg=dict(cond=c, t=t, target=tg, n=2 if len(c) == 2 else 1), cost=5, limits=T))
    return J
