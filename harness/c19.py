"""C19: the VEGA selections give every objective an equal share of the parents."""
from .sel import *
from .sel import _g

FUNCTIONS = ['VEGATournamentSelection.tournament/get_best/get_total_num_parents', 'VEGABalancedSelection.execute/add_probabilities/'
             'get_total_num_parents', 'VEGARankedSelection.execute/add_probabilities', 'TournamentSelection', 'BalancedSelection']
BOUNDS = ('one choice per block in populations of 30 (and around new constants); populations of 3..5 (also one more than declared), 1..3 objectives, symbolic scores per objective, symbolic draws for '
          'one objective at a time with up to 1 repetition; exact choice probabilities per objective for chosen score tables; '
          'pair counts for symbolic children_percent and larger sizes; whole VEGA runs with 1..4 objectives, objective values symbolic')
ASSUMPTIONS = ['scores are positive for proportional selection',
               'a pair that needs more repetitions than the bound is cut (the loop is memoryless)']


def mksel(kind, m, t=2):
    if kind == 'tour':
        return _g('VEGATournamentSelection')(num_objectives=m, tournament_size=t)
    return _g('VEGABalancedSelection' if kind == 'bal' else 'VEGARankedSelection')(num_objectives=m)


def skip_blocks(ctx, kind, table, k, pairs, extra, t, seed, m):
    """draws the first k blocks use when they come from the fixed stream"""
    if k == 0:
        return 0
    d = scored([list(r) for r in table], extra, k * (pairs + 0.01) / (len(table) - extra), multi=True)
    ctx.stream(seed)
    mksel(kind, k, t).execute(d)
    ctx.quiet(False)
    return ctx.nstream


def mass_block(ctx, kind, table, k, t=2, extra=0, seed=5):
    """the law of the k-th objective's block, by that objective's scores alone"""
    n, m = len(table), len(table[0])
    skip = skip_blocks(ctx, kind, table, k, 1, extra, t, seed, m)
    d = scored([list(r) for r in table], extra, m * 1.01 / (n - extra), multi=True)
    ctx.stream(seed, skip)
    mksel(kind, m, t).execute(d) if k == m - 1 else run_upto(ctx, kind, d, m, t, 2 * (k + 1))
    who = ids(d)
    col = [r[k] for r in table]
    me = who[2 * k:2 * k + 2]
    if kind == 'tour':
        pr = tour_probs(col, t)
        for s, p in pr.items():
            ctx.expect_mass(f'first score {s}', p, 1e-9, first=t)
        ctx.tally(f'first score {col[me[0]]}')
    else:
        w = col if kind == 'bal' else rank_weights(col)
        expect_first(ctx, me, w, 1)
        expect_second(ctx, me, w)


class Done(Exception):
    pass


def run_upto(ctx, kind, d, m, t, nparents):
    """blocks after the one looked at draw from the fixed stream: the objective's block is complete by then"""
    cls = type(d.population)
    ext = cls.extend
    app = cls.append

    def extend(self, xs):
        ext(self, xs)
        if len(self) >= nparents and self is d.parents and not getattr(ctx, '_sw', False):
            ctx._sw = True
            ctx.stream(9)

    def append(self, x):
        app(self, x)
        if len(self) >= nparents and self is d.parents and not getattr(ctx, '_sw', False):
            ctx._sw = True
            ctx.stream(9)
    ctx.patch(cls, 'extend', extend)
    ctx.patch(cls, 'append', append)
    mksel(kind, m, t).execute(d)


def blocks(ctx, kind, n, m, pairs=1, t=2, k=0, extra=0, seed=3, lo=0.01):
    """any scores; the draws of block k are arbitrary.  Tournament: every parent of block k beats t-1 others on objective k"""
    plain = [[1.0 + ((3 * i + 5 * j) % n) for j in range(m)] for i in range(n)]
    tab = [[ctx.real(f's{i}_{j}', lo, 5) if j == k else plain[i][j] for j in range(m)] for i in range(n)]
    skip = skip_blocks(ctx, kind, plain, k, pairs, extra, t, seed, m)
    d = scored(tab, extra, m * (pairs + 0.01) / (n - extra), multi=True)
    before = list(range(n))
    ctx.stream(seed, skip)
    if k == m - 1:
        mksel(kind, m, t).execute(d)
    else:
        run_upto(ctx, kind, d, m, t, 2 * pairs * (k + 1))
    who = structure(ctx, d, tab, pairs * m, before)
    if kind == 'tour':
        for b in range(m):
            for w in who[2 * pairs * b:2 * pairs * (b + 1)]:
                ctx.check(count([tab[j][b] <= tab[w][b] for j in range(n) if j != w]) >= t - 1,
                          "each objective's parents win by that objective's score")
    if kind == 'tour':
        ctx.observe('who', who)




def twins(ctx, kind, scores, cp, seed, groups):
    """members with equal genotypes are still different individuals"""
    n = len(scores)
    tab = [[a, b] for a, b in zip(scores, scores[1:] + scores[:1])]
    twins_run(ctx, mksel(kind, 2, 2), tab, 2 * int(cp * n / 2), cp, seed, multi=True, groups=groups)


def pairs_count(ctx, kind, n, m, seed, extra=0, cp=None):
    c = ctx.real('cp', 0, 1) if cp is None else cp
    sc = [[1.0 + (7 * i + 3 * j) % n for j in range(m)] for i in range(n)]
    d = scored(sc, extra, c, multi=True)
    ctx.stream(seed)
    mksel(kind, m, 2).execute(d)
    ctx.check(eq(len(d.parents), 2 * m * int(c * (n - extra) / m)), 'int(children_percent*num_individ/objectives) pairs per objective')
    who = structure(ctx, d, sc, len(d.parents) // 2, list(range(n)))
    if kind == 'tour':
        per = len(who) // m
        for b in range(m):
            for w in who[per * b:per * (b + 1)]:
                ctx.check(sum(sc[j][b] <= sc[w][b] for j in range(n) if j != w) >= 1, "each block is judged by its own objective")


def later(ctx, kind, n, m, seed, t=2, same=False):
    """the same selection object used again (next generation, other scores): still every objective's block, by its score"""
    sel = mksel(kind, m, t)
    d = scored([[1.0 + ((3 * i + 5 * j) % n) for j in range(m)] for i in range(n)], 0, m * 1.01 / n, multi=True)
    ctx.stream(seed)
    sel.execute(d)
    ctx.quiet(False)
    n2 = n if same else n + 1
    tab = [[1.0 + ((5 * i + 3 * j) % (n + 1)) for j in range(m)] for i in range(n2)]
    d2 = scored(tab, 1, m * 1.01 / n, multi=True) if not same else succeed(d, tab, m * 1.01 / n, multi=True)
    run_sel = sel
    ctx.stream(seed + 1, 0)
    cls = type(d2.population)
    ext = cls.extend

    def extend(self, xs):
        ext(self, xs)
        if len(self) >= 2 and self is d2.parents and not getattr(ctx, '_sw', False):
            ctx._sw = True
            ctx.stream(9)
    ctx.patch(cls, 'extend', extend)
    run_sel.execute(d2)
    who = structure(ctx, d2, tab, m, list(range(n2)))
    col = [r[0] for r in tab]
    if kind == 'tour':
        for s, p in tour_probs(col, t).items():
            ctx.expect_mass(f'first score {s}', p, 1e-9, first=t)
        ctx.tally(f'first score {col[who[0]]}')
    else:
        expect_first(ctx, who, col if kind == 'bal' else rank_weights(col), 1)


def shares(ctx, kind, n, m, seed):
    shares_run(ctx, mksel(kind, m, 2), n, m, seed)


def wide(ctx, kind, n, k):
    """large populations: one choice of the k-th objective's block (other draws fixed)"""
    m = 2
    tab = [[1.0 + (7 * i + 3) % n, 1.0 + ((5 * i + 1) % n) // 2] for i in range(n)]
    col = [r[k] for r in tab]
    skip = skip_blocks(ctx, kind, tab, k, 1, 0, 2, 4, m)
    d = scored([list(r) for r in tab], 0, m * 1.2 / n, multi=True)
    if kind == 'tour':
        ctx.corners((col.index(min(col)), col.index(max(col))))
    ctx.stream(4, skip)
    ctx.then(2 if kind == 'tour' else 1, 5)
    mksel(kind, m, 2).execute(d)
    who = structure(ctx, d, tab, m, list(range(n)))
    me = who[2 * k:2 * k + 2]
    if kind == 'tour':
        for w in me:
            ctx.check(sum(col[j] <= col[w] for j in range(n) if j != w) >= 1, "each objective's parents win by that objective's score")
    else:
        expect_first(ctx, me, col if kind == 'bal' else rank_weights(col), 1)


def others(ctx, kind, n, m, k, seed, t=2):
    """only objective k counts in its block: with the same draws, other values of the other objectives pick the same parents"""
    col = [1.0 + (3 * i % n) // 2 for i in range(n)]
    one = [[col[i] if j == k else 1.0 for j in range(m)] for i in range(n)]
    two = [[col[i] if j == k else ctx.real(f's{i}_{j}', 0.01, 5) if j == k + 1 else 1.0 for j in range(m)] for i in range(n)]
    got = []
    for tab in (one, two):
        d = scored([list(r) for r in tab], 0, m * 1.2 / n, multi=True)
        ctx.stream(seed)
        mksel(kind, m, t).execute(d)
        ctx.quiet(False)
        got.append(ids(d)[2 * k:2 * k + 2])
    ctx.check(got[0] == got[1], "an objective's block depends on that objective's scores only")
    ctx.observe('who', got[0])


TABS = [[[1., 3.], [2., 1.], [4., 2.]],
        [[1., 5.], [1., 5.], [3., 1.]],
        [[2., 1., 4.], [1., 1., 2.], [5., 3., 1.]],
        [[1., 4.], [2., 3.], [3., 2.], [4., 1.]],
        [[0.5, 1.], [0.5, 0.1], [1., 0.1], [0.2, 0.3]]]
NEG = [[[-1., 3.], [-1., -1.], [4., -1.]], [[0., -1.], [-2., -1.], [-1., -1.]], [[-1., -1.], [-1., -1.], [-1., 0.], [2., 5.]]]


def whole(ctx, m, n, cp, seed, ngen=3, hi=9):
    """a VEGA run: every selection gives each of the m objectives its pairs (tournaments of all but one: whoever wins is among the best two)"""
    import baumeva
    cls = _g('VEGATournamentSelection')
    orig = cls.execute
    fn = ctx.func('f', lambda nm: ctx.int(nm, 0, hi), m) if n < 9 else (
        lambda x: tuple((x[0] * (3 * k + 2) + k * x[1]) % (11 + k) for k in range(m)))
    rounds = []

    def spy(self, ga_data, *a, **k):
        r = orig(self, ga_data, *a, **k)
        rounds.append(1)
        pairs = int(cp * n / m)
        pop, par = ga_data.population, ga_data.parents
        ctx.check(len(par) == 2 * pairs * m, 'every objective gets int(children_percent*num_individ/objectives) pairs')
        for j in range(m):
            for i in range(2 * pairs):
                w = par[2 * pairs * j + i]
                above = count([x['score'][j] > w['score'][j] for x in pop])
                ctx.check(above <= len(pop) - (n - 1), 'judged by the score of the objective whose turn it is')
        return r
    ctx.patch(cls, 'execute', spy)
    ctx.stream(seed)
    baumeva.VEGA(num_generations=ngen, num_individ=n, gens=((0, 15, 1), (0, 15, 1)), obj_function=fn, is_print=False, children_percent=cp,
                 tournament_size=n - 1).optimize()
    ctx.quiet(False)
    if rounds:
        ctx.cover('a selection was made')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=20 if not big else 300)
    for kind in ('tour', 'bal', 'rank'):
        for tab in TABS + (NEG if kind != 'bal' else []):
            for k in range(len(tab[0])):
                J.append(dict(func='mass_block', cfg=dict(kind=kind, table=tab, k=k), cost=4,
                              limits=dict(time=60, max_draws=(4 if len(tab) > 3 else 6) if kind == 'tour' else 3)))
        J.append(dict(func='mass_block', cfg=dict(kind=kind, table=TABS[3], k=1, extra=1), cost=4,
                      limits=dict(time=60, max_draws=4 if kind == 'tour' else 3)))
        for n, m, p, k in ((3, 1, 1, 0), (3, 2, 1, 0), (3, 2, 1, 1), (3, 3, 1, 2), (4, 2, 1, 1)):
            J.append(dict(func='blocks', cfg=dict(kind=kind, n=n, m=m, pairs=p, k=k), cost=6,
                          limits=dict(T, max_draws=4 if kind == 'tour' else 2)))
        J.append(dict(func='blocks', cfg=dict(kind=kind, n=3, m=2, pairs=2, k=1), cost=8,
                      limits=dict(T, max_draws=8 if kind == 'tour' else 4)))
        for n, m in ((4, 2), (3, 3), (4, 1)):
            J.append(dict(func='pairs_count', cfg=dict(kind=kind, n=n, m=m, seed=1), cost=3))
        for n in sizes([10, 21, 50], 5, 200):
            for m in (2, 3, 4):
                for cp in (0.95, 0.5, 0.8):
                    J.append(dict(func='pairs_count', cfg=dict(kind=kind, n=n, m=m, seed=2, cp=cp, extra=1)))
        J.append(dict(func='later', cfg=dict(kind=kind, n=3, m=2, seed=2), cost=4,
                      limits=dict(T, max_draws=4 if kind == 'tour' else 3)))
    for kind in ('tour', 'bal', 'rank'):
        for m in sizes([6], 4, 12):
            tab = [[1.0 + (2 * i + j * (i + 1)) % 5 for j in range(m)] for i in range(3)]
            for k in (0, m // 2, m - 2, m - 1):
                J.append(dict(func='mass_block', cfg=dict(kind=kind, table=tab, k=k), cost=4,
                              limits=dict(time=60, max_draws=6 if kind == 'tour' else 3)))
        for n in large(base=(30,)):
            for k in (0, 1):
                J.append(dict(func='wide', cfg=dict(kind=kind, n=n, k=k), cost=6, limits=dict(time=60 if not big else 300, validate=5)))
        for n in sizes([10, 30, 100], 5, 130):
            for m in (2, 3):
                J.append(dict(func='shares', cfg=dict(kind=kind, n=n, m=m, seed=1), cost=2, limits=dict(time=30)))
        J.append(dict(func='later', cfg=dict(kind=kind, n=4, m=2, seed=2, same=True), cost=4, limits=dict(T, max_draws=4 if kind == 'tour' else 3)))
        for m, k in ((2, 0), (3, 0), (3, 1)):
            for seed in range(6):
                J.append(dict(func='others', cfg=dict(kind=kind, n=4 if seed < 4 else 6, m=m, k=k, seed=seed), cost=4, limits=dict(T, time=8)))
        for v in NEARTIES:
            J.append(dict(func='mass_block', cfg=dict(kind=kind, table=[[x, 1.0 + i] for i, x in enumerate(v)], k=0), cost=4,
                          limits=dict(time=60, max_draws=4 if kind == 'tour' else 3)))
    for m in sizes([1, 2, 3, 4], 1, 9):
        for n in (m + 2, 3 * m + 1, 20 + m):
            if n < 3:
                continue
            for cp in (1.0, 0.95, 0.7):
                J.append(dict(func='whole', cfg=dict(m=m, n=n, cp=cp, seed=m + n), cost=3, limits=dict(time=4 if not big else 60, validate=3)))
    for kind in ('tour', 'bal', 'rank'):
        J += twin_jobs(kind=kind)
    return J
