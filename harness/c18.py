"""C18: ranked selection weights individuals by rank, ties sharing the average."""
from .sel import *
from .sel import _g
from itertools import product

FUNCTIONS = ['RankedSelection.add_probabilities/execute', 'BalancedSelection.add_probabilities/get_index/balanced_selection',
             'GaData.update', 'BasePopulation.sort_by_dict']
BOUNDS = ('exact law of one choice in populations of 25 and 60 (and around new constants); populations of 2..6 in any tie pattern with concrete scores (negative, zero, -1, large) and exact choice '
          'probabilities; structure for symbolic scores; the population is as GaData.update leaves it; up to 3 repetitions '
          'per pair')
ASSUMPTIONS = ['a pair that needs more repetitions than the bound is cut (the loop is memoryless)']


def chance(ctx, scores, extra=0):
    n = len(scores)
    d = scored(list(scores), extra, 1.01 / (n - extra))
    before = sorted(x['genotype'][0] for x in d.population)
    _g('RankedSelection')().execute(d)
    who = structure(ctx, d, scores, 1, before)
    w = rank_weights(scores)
    expect_first(ctx, who, w, 1)
    expect_second(ctx, who, w)


def anyscore(ctx, n, pairs=1, extra=0, kind='real'):
    sc = [ctx.real(f's{i}', -5, 5) if kind == 'real' else ctx.int(f's{i}', -2, 2) for i in range(n)]
    d = scored(sc, extra, pairs / (n - extra) + 0.01)
    before = sorted(x['genotype'][0] for x in d.population)
    _g('RankedSelection')().execute(d)
    who = structure(ctx, d, sc, pairs, before)
    ctx.observe('who', who)


def symchance(ctx, n, kind='int'):
    """the law for every tie pattern at once: the draw decides by cumulated ranks of the sorted population, so for a
    fixed draw a better individual is never replaced by a worse one when the draw grows"""
    sc = [ctx.int(f's{i}', -2, 2) for i in range(n)]
    d = scored(sc, 0, 1.01 / n)
    _g('RankedSelection')().execute(d)
    w = []
    for i in range(n):
        lt = count([sc[j] < sc[i] for j in range(n)])
        es = count([eq(sc[j], sc[i]) for j in range(n)])
        w.append(lt + (es + 1) / 2)
    for ind in d.population:
        i = ind['genotype'][0]
        if 'rank' in ind and not isinstance(ind['rank'], list):
            ctx.check(close(ind['rank'], w[i]), 'the recorded rank is the (averaged) position by score')


def later(ctx, scores, again, seed, same=False):
    sel = _g('RankedSelection')()
    d = scored(list(scores), 0, 0.6)
    ctx.stream(seed)
    sel.execute(d)
    ctx.quiet(False)
    # the same individuals go on with other scores
    n = len(again)
    d2 = scored(list(again), 0, 1.01 / n) if not same else succeed(d, again, 1.01 / n)
    for ind in d2.population:
        ind['rank'] = 17
    sel.execute(d2)
    who = structure(ctx, d2, again, 1, list(range(n)))
    expect_first(ctx, who, rank_weights(again), 1)


def twins(ctx, scores, cp, seed, groups):
    """members with equal genotypes are still different individuals"""
    twins_run(ctx, _g('RankedSelection')(), scores, int(cp * len(scores)), cp, seed, groups=groups)


def pairs_count(ctx, n, seed, extra=0, cp=None):
    c = ctx.real('cp', 0, 1) if cp is None else cp
    sc = [1.0 + (7 * i) % n for i in range(n)]
    d = scored(sc, extra, c)
    ctx.stream(seed)
    _g('RankedSelection')().execute(d)
    ctx.check(eq(len(d.parents), 2 * int(c * (n - extra))), 'int(children_percent * num_individ) pairs')
    structure(ctx, d, sc, len(d.parents) // 2, list(range(n)))


def shares(ctx, n, seed):
    shares_run(ctx, _g('RankedSelection')(), n, None, seed)


def wide(ctx, n, ties):
    """large populations: the exact law of one choice (other draws fixed)"""
    sc = [1.0 + ((7 * i + 3) % n) // (3 if ties else 1) for i in range(n)]
    d = scored(sc, 0, 1.5 / n)
    ctx.then(1, 5)
    _g('RankedSelection')().execute(d)
    who = structure(ctx, d, sc, 1, list(range(n)))
    expect_first(ctx, who, rank_weights(sc), 1)


INF = float('inf')
EXTREME = ([-INF, -INF, 1.0, 2.0], [-INF, 0.0, INF], [INF, INF, -INF], [-INF, -INF, -INF], [1e308, -1e308, 1e308], [5e-324, 0.0, -0.0],
           [2 ** 60, 2 ** 60 + 1, 2 ** 60], [True, 1, 0], [-1e-300, -2e-300, 1e-300])


def patterns(n):
    """every tie pattern of n sorted scores"""
    for bits in product((0, 1), repeat=n - 1):
        v, cur = [0], 0
        for b in bits:
            cur += b
            v.append(cur)
        yield v


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=25 if not big else 300)
    for n in (2, 3, 4, 5) if not big else (2, 3, 4, 5, 6):
        for k, v in enumerate(patterns(n)):
            # spread the levels over interesting values, shuffled positions
            lev = [[-1.0, 0.0, 2.5, 3.0, 70.0, 71.0], [-3.0, -2.0, -1.0, 0.0, 1.0, 2.0], [0.0, 1e-3, 0.5, 0.6, 0.61, 1.0]][(k + n) % 3]
            sc = [lev[x] for x in v]
            sc = sc[k % n:] + sc[:k % n]
            J.append(dict(func='chance', cfg=dict(scores=sc), cost=n, limits=dict(T, max_draws=3 if n < 5 else 2)))
    for sc in ([-1.0, -1.0, -1.0], [-1, -1, 4], [3.0, -1.0, -1.0, -1.0], [0, 0, 0], [1.0, 2.0, 2.0, 1.0]):
        J.append(dict(func='chance', cfg=dict(scores=sc), cost=3, limits=dict(T, max_draws=3)))
        J.append(dict(func='chance', cfg=dict(scores=sc, extra=1), cost=3, limits=dict(T, max_draws=3)))
    for n, p in ((2, 1), (3, 1), (4, 1), (3, 2)):
        J.append(dict(func='anyscore', cfg=dict(n=n, pairs=p), cost=7, limits=dict(T, max_draws=2 * p + (p == 1))))
    J.append(dict(func='anyscore', cfg=dict(n=3, kind='int'), cost=7, limits=dict(T, max_draws=2)))
    for n in (2, 3, 4):
        J.append(dict(func='symchance', cfg=dict(n=n), cost=7, limits=dict(T, max_draws=2)))
    for a, b in (([1., 2., 3.], [3., 1., 1.]), ([9., 1., 1.], [1., 2., 4., 8.]), ([1., 2., 3., 4.], [5., 1.])):
        J.append(dict(func='later', cfg=dict(scores=a, again=b, seed=3), cost=3, limits=dict(T, max_draws=3)))
        if len(a) == len(b):
            J.append(dict(func='later', cfg=dict(scores=a, again=b, seed=3, same=True), cost=3, limits=dict(T, max_draws=3)))
    J.append(dict(func='later', cfg=dict(scores=[1., 2., 3., 4.], again=[9., 1., 4., 1.], seed=4, same=True), cost=3, limits=dict(T, max_draws=3)))
    for n in (2, 3, 4):
        J.append(dict(func='pairs_count', cfg=dict(n=n, seed=1), cost=2))
    for n in sizes([10, 20, 30, 50], 5, 300):
        for cp in (0.95, 0.5, 0.7, 1.0, 0.29):
            J.append(dict(func='pairs_count', cfg=dict(n=n, seed=2, cp=cp, extra=1)))
    for n in large():
        for ties in (False, True):
            J.append(dict(func='wide', cfg=dict(n=n, ties=ties), cost=6, limits=dict(time=60 if not big else 300, validate=5)))
    for v in NEARTIES:
        J.append(dict(func='chance', cfg=dict(scores=v), cost=4, limits=dict(T, max_draws=3)))
    for n in sizes([10, 30, 100], 5, 130):
        J.append(dict(func='shares', cfg=dict(n=n, seed=1), cost=2, limits=dict(time=30)))
    for v in EXTREME:
        J.append(dict(func='chance', cfg=dict(scores=v), cost=4, limits=dict(T, max_draws=3)))
    J += twin_jobs()
    return J
