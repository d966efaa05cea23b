"""C17: proportional selection picks individuals in proportion to their score."""
from .sel import *
from .sel import _g

FUNCTIONS = ['BalancedSelection.execute/add_probabilities/get_index/balanced_selection/get_total_num_parents',
             'BaseSelection.execute']
BOUNDS = ('exact law of one choice in populations of 25 and 60 (and around new constants); populations of 2..5 (also one more than declared); exact choice probabilities for chosen score vectors; structure for '
          'symbolic positive scores and every draw in [0, 1) with IEEE rounding of the cumulated shares, up to 3 repetitions '
          'per pair, 1..2 pairs')
ASSUMPTIONS = ['scores are positive', 'a pair that needs more repetitions than the bound is cut (the loop is memoryless)']


def chance(ctx, scores, extra=0):
    n = len(scores)
    d = scored(list(scores), extra, 1.01 / (n - extra))
    before = sorted(x['genotype'][0] for x in d.population)
    _g('BalancedSelection')().execute(d)
    who = structure(ctx, d, scores, 1, before)
    expect_first(ctx, who, list(scores), 1)
    expect_second(ctx, who, list(scores))


def anyscore(ctx, n, pairs=1, mode='real', extra=0, hi=10):
    """any positive scores, any draw: a member is selected"""
    if mode != 'real':
        ctx.rounding(mode)
    sc = [ctx.real(f's{i}', 0.01, hi) for i in range(n)]
    d = scored(sc, extra, pairs / (n - extra) + 0.01)
    before = sorted(x['genotype'][0] for x in d.population)
    _g('BalancedSelection')().execute(d)
    who = structure(ctx, d, sc, pairs, before)
    ctx.observe('who', who)


def rounded(ctx, scores):
    """cumulated shares that do not add up to exactly 1 in floating point: draws next to 1 still select a member"""
    n = len(scores)
    d = scored(list(scores), 0, 1.01 / n)
    before = sorted(x['genotype'][0] for x in d.population)
    _g('BalancedSelection')().execute(d)
    structure(ctx, d, scores, 1, before)


def later(ctx, scores, again, seed, same=False):
    """the same selection object in a later generation, with other scores"""
    sel = _g('BalancedSelection')()
    d = scored(list(scores), 0, 0.6)
    ctx.stream(seed)
    sel.execute(d)
    ctx.quiet(False)
    n = len(again)
    d2 = scored(list(again), 0, 1.01 / n) if not same else succeed(d, again, 1.01 / n)
    sel.execute(d2)
    who = structure(ctx, d2, again, 1, list(range(n)))
    expect_first(ctx, who, list(again), 1)


def twins(ctx, scores, cp, seed, groups):
    """members with equal genotypes are still different individuals"""
    twins_run(ctx, _g('BalancedSelection')(), scores, int(cp * len(scores)), cp, seed, groups=groups)


def pairs_count(ctx, n, seed, extra=0, cp=None):
    c = ctx.real('cp', 0, 1) if cp is None else cp
    sc = [1.0 + (7 * i) % n for i in range(n)]
    d = scored(sc, extra, c)
    ctx.stream(seed)
    _g('BalancedSelection')().execute(d)
    ctx.check(eq(len(d.parents), 2 * int(c * (n - extra))), 'int(children_percent * num_individ) pairs')
    structure(ctx, d, sc, len(d.parents) // 2, list(range(n)))


def shares(ctx, n, seed):
    shares_run(ctx, _g('BalancedSelection')(), n, None, seed)


def wide(ctx, n, ties):
    """large populations: the exact law of one choice (other draws fixed)"""
    sc = [1.0 + ((7 * i + 3) % n) // (3 if ties else 1) for i in range(n)]
    d = scored(sc, 0, 1.5 / n)
    ctx.then(1, 5)
    _g('BalancedSelection')().execute(d)
    who = structure(ctx, d, sc, 1, list(range(n)))
    expect_first(ctx, who, list(sc), 1)


VECS = [[1., 1.], [1., 3.], [9., 1.], [1., 2., 3.], [5., 1., 1.], [0.2, 0.2, 0.2], [0.1, 0.7, 0.1], [1 / 3, 0.5, 1.0],
        [1e-3, 1., 50.], [1., 2., 3., 4.], [4., 4., 1., 1.], [0.25, 1 / 3, 0.5, 1.0], [10., 0.1, 0.1, 10.],
        [0.5, 0.5, 0.9, 0.95, 1.0], [1., 8., 2., 16., 4.]]


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for v in VECS:
        J.append(dict(func='chance', cfg=dict(scores=v), cost=len(v), limits=dict(time=60, max_draws=4 if len(v) < 4 else 3)))
        if len(v) > 2:
            J.append(dict(func='chance', cfg=dict(scores=v, extra=1), cost=len(v), limits=dict(time=60, max_draws=3)))
    for v in ([0.1, 0.7, 0.1], [0.1] * 3, [0.1] * 6, [0.3, 0.1, 0.3, 0.1, 0.3, 0.1], [0.7] * 7, [1 / 3] * 10):
        J.append(dict(func='rounded', cfg=dict(scores=v), cost=6, limits=dict(time=40, max_draws=2)))
    T = dict(time=25 if not big else 300)
    for n, p in ((2, 1), (3, 1), (4, 1), (2, 2), (3, 2)):
        J.append(dict(func='anyscore', cfg=dict(n=n, pairs=p), cost=7, limits=dict(T, max_draws=2 * p + 1)))
    J.append(dict(func='anyscore', cfg=dict(n=3, extra=1), cost=7, limits=dict(T, max_draws=3)))
    for a, b in (([1., 2., 3.], [3., 1., 1.]), ([9., 1., 1.], [1., 2., 4., 8.]), ([1., 2., 3., 4.], [5., 1.])):
        J.append(dict(func='later', cfg=dict(scores=a, again=b, seed=3), cost=3, limits=dict(T, max_draws=3)))
        if len(a) == len(b):
            J.append(dict(func='later', cfg=dict(scores=a, again=b, seed=3, same=True), cost=3, limits=dict(T, max_draws=3)))
    J.append(dict(func='later', cfg=dict(scores=[1., 2., 3., 4.], again=[9., 1., 4., 1.], seed=4, same=True), cost=3, limits=dict(T, max_draws=3)))
    for n in (2, 3, 4):
        J.append(dict(func='pairs_count', cfg=dict(n=n, seed=1), cost=2))
    for n in sizes([10, 20, 30, 50], 5, 300):
        for cp in (0.95, 0.5, 0.7, 1.0, 0.29):
            for e in (0, 1):
                J.append(dict(func='pairs_count', cfg=dict(n=n, seed=2, cp=cp, extra=e)))
    for n in large():
        for ties in (False, True):
            J.append(dict(func='wide', cfg=dict(n=n, ties=ties), cost=6, limits=dict(time=60 if not big else 300, validate=5)))
    for v in NEARTIES:
        J.append(dict(func='chance', cfg=dict(scores=v), cost=4, limits=dict(T, max_draws=3)))
    for n in sizes([10, 30, 100], 5, 130):
        J.append(dict(func='shares', cfg=dict(n=n, seed=1), cost=2, limits=dict(time=30)))
    J += twin_jobs()
    return J
