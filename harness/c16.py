"""C16: tournament selection picks the best of distinct random entrants."""
from .sel import *
from .sel import _g
from .soak import soak_jobs

FUNCTIONS = ['TournamentSelection.execute/tournament/get_best/get_total_num_parents/check_tournament_size',
             'BaseSelection.execute', 'BasePopulation.reset_idx_individ/get_empty_copy']
BOUNDS = ('populations of 3..6 (also one more member than declared), tournament sizes 2..4, scores symbolic reals with ties, '
          'all draws symbolic with up to 2 repetitions per pair, 1..2 pairs; exact winning probabilities for chosen score '
          'vectors; one tournament at a time with entrants from the ends, the middle and the worst places for populations of 25, 60 (and around new constants); pair counts for symbolic children_percent and sizes up to 12 plus every new constant')
ASSUMPTIONS = ['a pair that needs more repetitions than the bound is cut (the loop is memoryless)']


def best(ctx, n, t, pairs=1, extra=0):
    """any scores, any draws"""
    cp = pairs / (n - extra) + 0.01
    sc = [ctx.real(f's{i}', -5, 5) for i in range(n)]
    d = scored(sc, extra, cp)
    before = sorted(x['genotype'][0] for x in d.population)
    _g('TournamentSelection')(tournament_size=t).execute(d)
    who = structure(ctx, d, sc, pairs, before)
    for k in who:
        ctx.check(count([sc[j] <= sc[k] for j in range(n) if j != k]) >= t - 1,
                  'the winner of a tournament is not beaten by any of its tournament_size - 1 opponents')
    ctx.observe('who', who)


def chance(ctx, scores, t, extra=0):
    """exact probability of winning a tournament, ties together"""
    n = len(scores)
    d = scored(list(scores), extra, 1.01 / (n - extra))
    before = sorted(x['genotype'][0] for x in d.population)
    _g('TournamentSelection')(tournament_size=t).execute(d)
    who = structure(ctx, d, scores, 1, before)
    pr = tour_probs(scores, t)
    for s, p in pr.items():
        ctx.expect_mass(f'first score {s}', p, 1e-9, first=t)
    ctx.tally(f'first score {scores[who[0]]}')
    if len(set(scores)) == n:
        ps = [pr[s] for s in scores]
        for i in range(n):
            for j in range(n):
                if i != j and ps[i] < 1:
                    ctx.expect_mass(f'pair {i},{j}', ps[j] / (1 - ps[i]), 1e-9, given=f'1st {i}')
        ctx.tally(f'1st {who[0]}')
        ctx.tally(f'pair {who[0]},{who[1]}')


def reach(ctx, n, t, extra=0):
    """everyone who can win does win for some draw, in either place"""
    sc = [float(i) for i in range(n)]
    d = scored(sc, extra, 1.01 / (n - extra))
    _g('TournamentSelection')(tournament_size=t).execute(d)
    who = ids(d)
    for i in range(t - 1, n):
        ctx.must_cover(f'first {i}', f'second {i}')
    ctx.cover(f'first {who[0]}')
    ctx.cover(f'second {who[1]}')


def twins(ctx, scores, cp, seed, groups):
    """members with equal genotypes are still different individuals"""
    twins_run(ctx, _g('TournamentSelection')(tournament_size=2), scores, int(cp * len(scores)), cp, seed, groups=groups)


def pairs_count(ctx, n, seed, extra=0, cp=None):
    c = ctx.real('cp', 0, 1) if cp is None else cp
    sc = [float((7 * i) % n) for i in range(n)]
    d = scored(sc, extra, c)
    ctx.stream(seed)
    _g('TournamentSelection')(tournament_size=2).execute(d)
    ctx.check(eq(len(d.parents), 2 * int(c * (n - extra))), 'int(children_percent * num_individ) pairs')
    structure(ctx, d, sc, len(d.parents) // 2, list(range(n)))


def again(ctx, n, t, seed, same=False):
    """a second generation: the same selection object, other scores, other population"""
    sel = _g('TournamentSelection')(tournament_size=t)
    d = scored([float(i) for i in range(n)], 0, 0.6)
    ctx.stream(seed)
    sel.execute(d)
    ctx.quiet(False)
    n2 = n + 1 if not same else n
    sc = [ctx.real(f's{i}', -5, 5) for i in range(n2)]
    d2 = scored(sc, 1, 1.01 / n) if not same else succeed(d, sc, 1.01 / n)
    sel.execute(d2)
    who = structure(ctx, d2, sc, 1, list(range(n2)))
    for k in who:
        ctx.check(count([sc[j] <= sc[k] for j in range(n2) if j != k]) >= t - 1,
                  'the winner is not beaten by any opponent in later generations either')


def shares(ctx, n, seed):
    shares_run(ctx, _g('TournamentSelection')(2), n, None, seed)


def wide(ctx, n, t, place):
    """large populations, distinct scores: one tournament, its entrants taken from both ends, the middle and the worst
    places of the population (other draws fixed)"""
    sc = [float((11 * i + 5) % n if n % 11 else (7 * i + 5) % n if n % 7 else i) for i in range(n)]
    d = scored(sc, 0, 1.5 / n)
    order = [x['genotype'][0] for x in d.population]
    worst = order.index(sc.index(min(sc)))
    best = order.index(sc.index(max(sc)))
    ctx.corners((worst, best))
    if place:
        ctx.stream(3, place * t)
    ctx.then(t, 5)
    _g('TournamentSelection')(tournament_size=t).execute(d)
    who = structure(ctx, d, sc, 1, list(range(n)))
    for k in who:
        ctx.check(sum(sc[j] <= sc[k] for j in range(n) if j != k) >= t - 1,
                  'the winner of a tournament is not beaten by any of its tournament_size - 1 opponents')
    ctx.observe('who', who)


def anyone(ctx, n, t):
    """large populations: everyone not outranked by too many can win the first tournament.  First with the later entrants
    from the ends of the population; over all entrants if somebody has not won then"""
    sc = [float((11 * i + 5) % n if n % 11 else (7 * i + 5) % n if n % 7 else i) for i in range(n)]
    labels = [f'winner {i}' for i in range(n) if sum(x < sc[i] for x in sc) >= t - 1]
    d = scored(sc, 0, 1.5 / n)
    ctx.must_cover(*labels)
    if not ctx.stage(*labels):
        ctx.ends(1)
    ctx.then(t, 5)
    _g('TournamentSelection')(tournament_size=t).execute(d)
    ctx.cover(f'winner {ids(d)[0]}')


def jobs(tier):
    big = tier == 'thorough'
    J = []

    def lim(t, k):
        return dict(time=25 if not big else 400, max_draws=t * k)
    for n, t, e in ((3, 2, 0), (4, 2, 0), (4, 3, 0), (4, 2, 1), (5, 3, 1), (5, 4, 0)):
        J.append(dict(func='best', cfg=dict(n=n, t=t, extra=e), cost=5, limits=lim(t, 3 if big or n == 3 else 2)))
    J.append(dict(func='best', cfg=dict(n=3, t=2, pairs=2), cost=9, limits=lim(2, 5 if big else 4)))
    J.append(dict(func='again', cfg=dict(n=3, t=2, seed=1), cost=5, limits=lim(2, 3)))
    J.append(dict(func='again', cfg=dict(n=4, t=2, seed=1, same=True), cost=5, limits=lim(2, 3)))
    for sc in ([0., 1., 2.], [2., 0., 1.], [1., 1., 0.], [5., -1., -1.]):
        J.append(dict(func='chance', cfg=dict(scores=sc, t=2), cost=3, limits=lim(2, 4)))
    for sc in ([3., 1., 0., 2.], [0., 0., 1., 1.], [-4., -1., -1., -9.], [2., 2., 2., 2.]):
        J.append(dict(func='chance', cfg=dict(scores=sc, t=2), cost=4, limits=lim(2, 3)))
        J.append(dict(func='chance', cfg=dict(scores=sc, t=2, extra=1), cost=4, limits=lim(2, 3)))
        J.append(dict(func='chance', cfg=dict(scores=sc, t=3), cost=8, limits=lim(3, 2)))
    J.append(dict(func='chance', cfg=dict(scores=[0., 4., 1., 3., 2.], t=2), cost=8, limits=lim(2, 2)))
    J.append(dict(func='chance', cfg=dict(scores=[0., 4., 1., 3., 2.], t=2, extra=1), cost=8, limits=lim(2, 2)))
    J.append(dict(func='chance', cfg=dict(scores=[0., 4., 1., 3., 2.], t=3), cost=9, limits=dict(time=60 if not big else 400, max_draws=6)))
    for n, t, e in ((3, 2, 0), (4, 2, 0), (4, 3, 0), (5, 2, 0), (5, 2, 1), (6, 2, 0)):
        J.append(dict(func='reach', cfg=dict(n=n, t=t, extra=e), cost=4, limits=lim(t, 2)))
    for n in (3, 4, 5):
        for e in (0, 1):
            if n - e > 2:
                J.append(dict(func='pairs_count', cfg=dict(n=n, seed=1, extra=e), cost=2))
    for n in sizes([10, 20, 30, 50], 5, 300):
        for cp in (0.95, 0.5, 0.7, 1.0, 0.29):
            for e in (0, 1):
                J.append(dict(func='pairs_count', cfg=dict(n=n, seed=2, cp=cp, extra=e)))
    for n in large():
        for t, place in ((2, 0), (2, 1), (3, 0)):
            J.append(dict(func='wide', cfg=dict(n=n, t=t, place=place), cost=5, limits=dict(time=40 if not big else 300, validate=5)))
    for n in large(54, (25,)):
        J.append(dict(func='anyone', cfg=dict(n=n, t=2), cost=20, limits=dict(time=150 if not big else 600, validate=5)))
    for v in NEARTIES:
        J.append(dict(func='chance', cfg=dict(scores=v, t=2), cost=4, limits=lim(2, 3)))
    if big:
        J.append(dict(func='best', cfg=dict(n=6, t=3, extra=1), cost=9, limits=lim(3, 3)))
        J.append(dict(func='best', cfg=dict(n=4, t=2, pairs=3), cost=9, limits=lim(2, 7)))
        J.append(dict(func='chance', cfg=dict(scores=[0., 4., 1., 3., 2., 5.], t=3), cost=9, limits=lim(3, 2)))
    for n in sizes([10, 30, 100], 5, 130):
        J.append(dict(func='shares', cfg=dict(n=n, seed=1), cost=2, limits=dict(time=30)))
    J += twin_jobs()
    J += soak_jobs('C16', tier, kinds=('bin', 'cat', 'swap', 'ffga'))
    return J
