"""C06: crossovers recombine position-wise, one child per pair."""
from .common import *

FUNCTIONS = ['BaseCrossover.execute/get_children', 'OnePointCrossover.crossover/execute',
             'TwoPointCrossover.crossover/execute', 'UniformCrossover.crossover/execute',
             'BasePopulation.get_empty_copy/get_empty_individ', 'CatPopulation.fill', 'BinaryPopulation.fill']
BOUNDS = 'genotype length 2..8 (quick) / 2..16 (thorough; reachable cuts up to 33), 1..3 parent pairs, all gene values and all draws symbolic; long chromosomes (up to 130): reachable cuts, and either gene at every place of uniform crossover'
ASSUMPTIONS = ['parents have equal length (guaranteed by the populations)',
               'two-point crossover needs length >= 3, one-point length >= 2 (below that the operator raises)']


def _cls(name):
    import baumeva.ga as g
    return getattr(g, name)


def shape(name, child, p, q):
    L = len(p)
    if len(child) != L:
        return False
    pos = And([Or(eq(child[i], p[i]), eq(child[i], q[i])) for i in range(L)])
    if name == 'OnePointCrossover':
        alts = []
        for a, b in ((p, q), (q, p)):
            for k in range(1, L):
                alts.append(eq(list(child), list(a[:k]) + list(b[k:])))
        return And(pos, Or(alts))
    if name == 'TwoPointCrossover':
        alts = []
        for a, b in ((p, q), (q, p)):
            for k in range(1, L):
                for m in range(k + 1, L):
                    alts.append(eq(list(child), list(a[:k]) + list(b[k:m]) + list(a[m:])))
        return And(pos, Or(alts))
    return pos


def recombine(ctx, op, L, pairs=1):
    """any gene values, any draws"""
    gs = [[ctx.int(f'g{r}_{i}', 0, 1000) for i in range(L)] for r in range(2 * pairs)]
    pop = cat_pop(gs, gens=tuple((0, 1000, 1) for _ in range(L)))
    d = ga(pop)
    set_parents(d, range(2 * pairs))
    _cls(op)().execute(d)
    ctx.check(len(d.children) == pairs, 'one child per parent pair')
    for k in range(pairs):
        ctx.check(shape(op, d.children[k]['genotype'], gs[2 * k], gs[2 * k + 1]),
                  f'{op}: child {k} recombines its two parents position by position')
    ctx.observe('children', genos(d.children))


def recombine_bits(ctx, op, gens, gray):
    pop = bin_sym(ctx, 2, gens, gray, decode=False)
    gs = genos(pop)
    d = ga(pop)
    set_parents(d, [0, 1])
    _cls(op)().execute(d)
    ctx.check(len(d.children) == 1, 'one child per parent pair')
    ctx.check(shape(op, d.children[0]['genotype'], gs[0], gs[1]), f'{op}: binary child recombines its parents')
    ctx.observe('children', genos(d.children))


def reach(ctx, op, L):
    """every documented cut and either parent order can happen"""
    p, q = ['p%d' % i for i in range(L)], ['q%d' % i for i in range(L)]
    pop = cat_pop([p, q], gens=tuple(['p%d' % i, 'q%d' % i] for i in range(L)))
    d = ga(pop)
    set_parents(d, [0, 1])
    _cls(op)().execute(d)
    c = list(d.children[0]['genotype'])
    ctx.observe('child', c)
    src = [0 if c[i] == p[i] else 1 for i in range(L)]
    ctx.must_cover(*WANT.setdefault((op, L), wanted(op, L)))
    t = ('first', 'second')[src[0]]
    if op == 'UniformCrossover':
        for k in (0, 1):
            if src.count(k) == 1:
                ctx.cover(f'{op} L={L}: only gene {src.index(k)} of parent {k}')
    else:
        cuts = [i for i in range(1, L) if src[i] != src[i - 1]]
        ctx.cover(f'{op} L={L}: cuts {cuts}, {t} parent leading')


def far(ctx, L):
    """two-point crossover of long chromosomes: near and far cuts can happen (first explored at the ends of the draws)"""
    op = 'TwoPointCrossover'
    p, q = [2 * i for i in range(L)], [2 * i + 1 for i in range(L)]
    pop = cat_pop([p, q], gens=tuple([2 * i, 2 * i + 1] for i in range(L)))
    d = ga(pop)
    set_parents(d, [0, 1])
    want = {(1, 2), (1, L - 1), (L - 2, L - 1), (1, L // 2), (L // 2, L - 1)}
    labs = {(w, t): f'{op} L={L}: cuts {list(w)}, {t} parent leading' for w in want for t in (0, 1)}
    ctx.must_cover(*labs.values())
    if not ctx.stage(*labs.values()):
        ctx.corners((1, 2))
    _cls(op)().execute(d)
    c = list(d.children[0]['genotype'])
    src = [x % 2 for x in c]
    ctx.check(len(c) == L and all(x // 2 == i for i, x in enumerate(c)), 'child recombines its parents position by position')
    cuts = tuple(i for i in range(1, L) if src[i] != src[i - 1])
    ctx.check(len(cuts) == 2, 'two interior cuts')
    if (cuts, src[0]) in labs:
        ctx.cover(labs[cuts, src[0]])


def mask(ctx, L, at):
    """long uniform crossover: the draws follow one of several fixed streams except for one; every gene of either parent is
    reachable, also next to the other parent's genes"""
    p, q = [2 * i for i in range(L)], [2 * i + 1 for i in range(L)]
    pop = cat_pop([p, q], gens=tuple([2 * i, 2 * i + 1] for i in range(L)))
    d = ga(pop)
    set_parents(d, [0, 1, 1, 0])
    seed = ctx.choose('stream', [(pow(48271, 5 * k + 9, 2 ** 31 - 1)) for k in range(32)])
    ctx.stream(seed, at)
    ctx.then(1, seed + 5)
    _cls('UniformCrossover')().execute(d)
    ctx.check(len(d.children) == 2, 'one child per parent pair')
    for c in d.children:
        c = list(c['genotype'])
        ctx.check(len(c) == L and all(c[i] in (p[i], q[i]) for i in range(L)), 'child recombines its parents position by position')
    for k, c in enumerate(d.children):
        for i in range(L):
            for w, src in enumerate((p, q)):
                lab = f'uniform L={L}: gene {i} of individual {w} in child {k}'
                ctx.must_cover(lab)
                if c['genotype'][i] == src[i]:
                    ctx.cover(lab)


WANT = {}


def wanted(op, L):
    if op == 'UniformCrossover':
        return [f'{op} L={L}: only gene {j} of parent {k}' for j in range(L) for k in (0, 1)]
    cuts = [[k] for k in range(1, L)] if op == 'OnePointCrossover' else [[k, m] for k in range(1, L) for m in range(k + 1, L)]
    return [f'{op} L={L}: cuts {x}, {t} parent leading' for x in cuts for t in ('first', 'second')]


def jobs(tier):
    J = []
    big = tier == 'thorough'
    for op, lo in (('OnePointCrossover', 2), ('TwoPointCrossover', 3), ('UniformCrossover', 1)):
        for L in sizes(range(lo, 17 if big else 9), lo, 40):
            if op == 'UniformCrossover' and L > (10 if big else 7) and L < 12:
                continue
            J.append(dict(func='recombine', cfg=dict(op=op, L=L), cost=L, limits=dict(time=40)))
        J.append(dict(func='recombine', cfg=dict(op=op, L=3, pairs=2), cost=5))
        if op == 'OnePointCrossover' or big:
            J.append(dict(func='recombine', cfg=dict(op=op, L=3, pairs=3), cost=9))
        reach_l = {lo, lo + 1, 5} | ({9} if op == 'UniformCrossover' else
                                     set(sizes([12, 20, 33] if op == 'OnePointCrossover' or big else [12, 18], lo, 130 if op == 'OnePointCrossover' else 70)))
        if op == 'TwoPointCrossover':
            reach_l = {L for L in reach_l if L <= 25 or L - 1 in new_consts()}
        for L in sorted(reach_l):
            J.append(dict(func='reach', cfg=dict(op=op, L=L), cost=L, limits=dict(time=120 if L < 25 else 500)))
        if op == 'TwoPointCrossover':
            for L in sizes([30, 70], 19, 130):
                J.append(dict(func='far', cfg=dict(L=L), cost=9, limits=dict(time=200)))
        if op == 'UniformCrossover':
            for L in sizes([20, 40, 75], 9, 130):
                J.append(dict(func='mask', cfg=dict(L=L, at=L // 2), cost=3, limits=dict(time=40)))
        for gray in (False, True):
            J.append(dict(func='recombine_bits', cfg=dict(op=op, gens=[[-1, 1, 0.25], [0, 3, 1]], gray=gray), cost=5))
    return J
