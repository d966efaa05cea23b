"""C07: genes mutate with the configured probability."""
from .common import *

FUNCTIONS = ['BinStringMutation.update_mutation_lvl/determines_mutation/get_mutation/execute', 'CategoricalMutation.*',
             'BaseCombinatoryMutation.check_mutation/determines_mutation/execute', 'SwapMutation', 'InversionMutation',
             'MovementMutation', 'ShiftMutation']
BOUNDS = ('levels 0, 0.001, 0.004, 0.1, 0.25, 0.3, 0.5, 0.75, 0.999, 1 and the three names; 1..3 bits or categorical genes '
          '(names: also lengths up to 6), 1..3 children, permutations of 3..5; components used before on up to 40 genes and 0..4 children; two neighbouring draws at a time for 12, 25 and 48 units; the probability is the exact measure of '
          'the solver-explored path conditions over all draws')
ASSUMPTIONS = ['draws of the random module are independent and uniform',
               'tolerance 0.002 (0.2 percentage points) plus the probability of a coincidence where stated']
LEVELS = [0.0, 0.001, 0.004, 0.1, 0.25, 0.3, 0.5, 0.75, 0.999, 1.0]
TOL = 0.002 + 1e-9


def level(name, L, kind):
    if not isinstance(name, str):
        return name
    if kind == 'perm':
        return {'weak': 0.03, 'normal': 0.1, 'strong': 0.3}[name]
    return min(1.0, {'weak': 0.3, 'normal': 1.0, 'strong': 3.0}[name] / L)


def kids(d, gs):
    d.children = d.population.get_empty_copy()
    for g in gs:
        c = d.population.get_empty_individ()
        c['genotype'] = list(g)
        d.children.append(c)


def judge(ctx, changed, p):
    """changed: list of truth values, one per unit; each has probability p, each pair p*p"""
    for i, c in enumerate(changed):
        ctx.expect_mass(f'unit {i} changed', p, TOL)
        if ctx.truth(c):
            ctx.tally(f'unit {i} changed')
    for i in range(len(changed)):
        for j in range(i):
            ctx.expect_mass(f'units {j} and {i} both changed', p * p, 2 * TOL)
            if ctx.truth(changed[i]) and ctx.truth(changed[j]):
                ctx.tally(f'units {j} and {i} both changed')


def bits(ctx, lvl, start, n=1, gens=None, gray=False):
    from baumeva.ga import BinStringMutation
    L = len(start)
    ctx.quiet()
    pop = bin_pop(2, tup(gens) if gens else tuple((0, 1, 1) for _ in range(L)), gray)
    ctx.quiet(False)
    d = ga(pop)
    kids(d, [list(start)] * n)
    m = BinStringMutation(mutation_lvl=lvl)
    m.execute(d)
    ctx.check(And(len(d.children) == n, *[len(c['genotype']) == L for c in d.children]), 'same shape')
    ch = [c['genotype'][i] != start[i] for c in d.children for i in range(L)]
    judge(ctx, ch, level(lvl, L, 'bin'))
    ctx.observe('kids', genos(d.children))


def second(ctx, lvl, start, kind, before=()):
    """the level still holds in later generations (same mutation object), also after uses on problems of other sizes"""
    import baumeva.ga as G
    m = {'bin': G.BinStringMutation, 'cat': G.CategoricalMutation}.get(kind) or getattr(G, kind)
    m = m(mutation_lvl=lvl)

    def use(start, k):
        L = len(start)
        if kind == 'bin':
            pop = bin_pop(2, tuple((0, 1, 1) for _ in range(L)))
        elif kind == 'cat':
            pop = cat_pop([list(start)], gens=tuple(['a', 'b', 'c'] for _ in range(L)))
        else:
            pop = cat_pop([list(start)], gens=(0, L, L), cls=G.OrderCatPopulation)
        d = ga(pop)
        kids(d, [list(start)] * k)
        m.execute(d)
        return d
    ctx.quiet()
    for n, k in before or ((len(start), 1),) * 3:
        use({'bin': '0' * n, 'cat': ['a'] * n}.get(kind) or list(range(n)), k)
    pop = bin_pop(2, tuple((0, 1, 1) for _ in start)) if kind == 'bin' else cat_pop([list(start)], gens=tuple(['a', 'b', 'c'] for _ in start)) \
        if kind == 'cat' else cat_pop([list(start)], gens=(0, len(start), len(start)), cls=G.OrderCatPopulation)
    ctx.quiet(False)
    d = ga(pop)
    L = len(start)
    kids(d, [list(start)])
    m.execute(d)
    h = d.children[0]['genotype']
    if kind in ('bin', 'cat'):
        judge(ctx, [h[i] != start[i] for i in range(L)], level(lvl, L, 'bin'))
    else:
        judge(ctx, [list(h) != list(start)], level(lvl, L, 'perm'))


def cat(ctx, lvl, pool, start, n=1):
    from baumeva.ga import CategoricalMutation
    gens = tuple(tuple(g) if isinstance(g[0], int) else list(g) for g in pool)
    pop = cat_pop([list(start)], gens=gens)
    d = ga(pop)
    kids(d, [list(start)] * n)
    CategoricalMutation(mutation_lvl=lvl).execute(d)
    L = len(start)
    ch = [c['genotype'][i] != start[i] for c in d.children for i in range(L)]
    judge(ctx, ch, level(lvl, L, 'cat'))
    ctx.observe('kids', genos(d.children))


def perm(ctx, lvl, op, L, n=1):
    import baumeva.ga as G
    start = list(range(L))
    pop = cat_pop([start], gens=(0, L - 1, L), cls=G.OrderCatPopulation)
    d = ga(pop)
    kids(d, [start] * n)
    getattr(G, op)(mutation_lvl=lvl).execute(d)
    judge(ctx, [list(c['genotype']) != start for c in d.children], level(lvl, L, 'perm'))
    ctx.observe('kids', genos(d.children))


def full_level(ctx, L, kind):
    any_level(ctx, L, kind, True)


def any_level(ctx, L, kind, fixed=False):
    """numeric level symbolic: 1 always mutates, 0 never does; a larger draw never turns mutation on"""
    import baumeva.ga as G
    lvl = ctx.choose('lvl', [0.0, 1.0])
    start = (['0', '1', '1', '0', '1', '0', '0', '1'] * (L // 8 + 1))[:L]
    if kind == 'bin':
        ctx.quiet()
        pop = bin_pop(2, tuple((0, 1, 1) for _ in range(L)))
        ctx.quiet(False)
        m = G.BinStringMutation(mutation_lvl=lvl)
    elif kind == 'cat':
        start = [x == '1' and 'b' or 'a' for x in start]
        pop = cat_pop([start], gens=tuple(['a', 'b', 'c'] for _ in range(L)))
        m = G.CategoricalMutation(mutation_lvl=lvl)
    else:
        start = list(range(L))
        pop = cat_pop([start], gens=(0, L - 1, L), cls=G.OrderCatPopulation)
        m = getattr(G, kind)(mutation_lvl=lvl)
    if fixed:           # long chromosomes: the draws follow a fixed stream except for a few
        ctx.stream(L, L // 2)
        ctx.then(2, L + 1)
    d = ga(pop)
    kids(d, [start] * 2)
    m.execute(d)
    for c in d.children:
        h = c['genotype']
        if kind in ('bin', 'cat'):
            for i in range(L):
                ctx.check(Iff(ne(h[i], start[i]), lvl == 1.0), 'level 0 never mutates, level 1 always')
        else:
            ctx.check(Iff(ne(list(h), start), lvl == 1.0), 'level 0 never mutates, level 1 always')


def long(ctx, kind, lvl, L, at, k=2):
    """long chromosomes: k draws from the at-th on are explored, all others take their largest value (no mutation).  A unit
    reached by those draws changes with the configured probability, two of them independently"""
    import baumeva.ga as G
    p = level(lvl, L, 'bin')
    if kind == 'bin':
        ctx.quiet()
        pop = bin_pop(2, tuple((0, 1, 1) for _ in range(L)))
        ctx.quiet(False)
        start = list('0110100110010110' * (L // 16 + 1))[:L]
        m = G.BinStringMutation(mutation_lvl=lvl)
    else:
        start = ['a', 'c', 'b', 'a', 'b'] * (L // 5 + 1)
        start = start[:L]
        pop = cat_pop([start], gens=tuple(['a', 'b', 'c'] for _ in range(L)))
        m = G.CategoricalMutation(mutation_lvl=lvl)
    d = ga(pop)
    kids(d, [start, start])
    ctx.high(at)
    ctx.then(k, 'high')
    m.execute(d)
    hit = [(r, i) for r in (0, 1) for i in range(L) if d.children[r]['genotype'][i] != start[i]]
    for r in (0, 1):
        ctx.check(len(d.children[r]['genotype']) == L, 'same shape')
    near = [(r, i) for r in (0, 1) for i in range(L) if abs(r * L + i - at) <= 4]
    for u in sorted(set(near) | set(hit)):
        ctx.expect_mass(f'unit {u} changed', (0, p), TOL)
    for u in near:
        for w in near:
            if u < w:
                ctx.expect_mass(f'units {u} and {w} both changed', (0, p * p), min(2 * TOL, p / 4))
    for u in hit:
        ctx.tally(f'unit {u} changed')
        for w in hit:
            if u < w:
                ctx.expect_mass(f'units {u} and {w} both changed', (0, p * p), min(2 * TOL, p / 4))
                ctx.tally(f'units {u} and {w} both changed')


def perms(ctx, lvl, op, n, at, L=4):
    """many permutation children: one draw from the at-th on is explored, all others take their largest value"""
    import baumeva.ga as G
    p = level(lvl, L, 'perm')
    start = list(range(L))
    pop = cat_pop([start], gens=(0, L - 1, L), cls=G.OrderCatPopulation)
    d = ga(pop)
    kids(d, [start] * n)
    ctx.high(at)
    ctx.then(1, 'high')
    getattr(G, op)(mutation_lvl=lvl).execute(d)
    ctx.check(len(d.children) == n, 'same shape')
    hit = [i for i in range(n) if list(d.children[i]['genotype']) != start]
    near = [i for i in range(n) if abs(i - at) <= 3]
    for u in sorted(set(near) | set(hit)):
        ctx.expect_mass(f'unit {u} changed', (0, p), TOL)
    for u in near:
        for w in near:
            if u < w:
                ctx.expect_mass(f'units {u} and {w} both changed', (0, p * p), min(2 * TOL, p / 4))
    for u in hit:
        ctx.tally(f'unit {u} changed')
        for w in hit:
            if u < w:
                ctx.expect_mass(f'units {u} and {w} both changed', (0, p * p), min(2 * TOL, p / 4))
                ctx.tally(f'units {u} and {w} both changed')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=40 if not big else 600)
    for lv in LEVELS + ['weak', 'normal', 'strong']:
        J.append(dict(func='bits', cfg=dict(lvl=lv, start='01'), limits=T))
        J.append(dict(func='bits', cfg=dict(lvl=lv, start='1', n=2), limits=T))
        J.append(dict(func='cat', cfg=dict(lvl=lv, pool=[['a', 'b', 'c'], [0, 4, 2]], start=['b', 2]), cost=3, limits=T))
        J.append(dict(func='cat', cfg=dict(lvl=lv, pool=[['a', 'b']], start=['b'], n=2), cost=2, limits=T))
        for op in ('SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation'):
            J.append(dict(func='perm', cfg=dict(lvl=lv, op=op, L=3), cost=2, limits=T))
            if big or lv in (0.3, 'normal'):
                J.append(dict(func='perm', cfg=dict(lvl=lv, op=op, L=4 if not big else 5), cost=2, limits=T))
                J.append(dict(func='perm', cfg=dict(lvl=lv, op=op, L=3, n=2), cost=5, limits=T))
    for lv in ('weak', 'normal', 'strong', 0.3):
        J.append(dict(func='bits', cfg=dict(lvl=lv, start='01101'), cost=3, limits=T))
        J.append(dict(func='bits', cfg=dict(lvl=lv, start='0110', gens=[(0, 7, 1), (2, 3, 1)]), cost=3, limits=T))
        J.append(dict(func='bits', cfg=dict(lvl=lv, start='10110', gens=[(-1, 2, 0.1)], gray=True), cost=3, limits=T))
        J.append(dict(func='cat', cfg=dict(lvl=lv, pool=[['a', 'b']] * 4, start=['a'] * 4), cost=3, limits=T))
        for k in ('bin', 'cat', 'SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation'):
            J.append(dict(func='second', cfg=dict(lvl=lv, kind=k,
                                                  start='011' if k == 'bin' else ['a', 'b'] if k == 'cat' else [0, 1, 2]),
                          limits=T))
            for bf in (((7, 1),), ((7, 0),), ((3, 4), (9, 1)), ((40, 3),), ((5, 1), (5, 2), (4, 0))):
                J.append(dict(func='second', cfg=dict(lvl=lv, kind=k, before=bf, start='011' if k == 'bin' else ['a', 'b'] if k == 'cat' else [0, 1, 2]),
                              limits=T))
    for kind in ('bin', 'cat'):
        for L in sizes([12, 25, 48], 9, 130):
            for lv in (0.25, 'strong', 'normal'):
                for at in (0, 1, L // 2, L - 2, L + 3):
                    J.append(dict(func='long', cfg=dict(kind=kind, lvl=lv, L=L, at=at, k=2 if kind == 'bin' else 1), cost=2, limits=T))
        for L in sizes([48, 110, 200], 9, 300):
            for lv in ('weak', 'normal', 'strong'):
                J.append(dict(func='long', cfg=dict(kind=kind, lvl=lv, L=L, at=L // 3, k=1), cost=2, limits=T))
    for op in ('SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation'):
        for n in sizes([6, 26, 60], 3, 130):
            for lv in (0.5, 'normal', 'strong'):
                for at in (0, 1, n // 2, n - 2):
                    J.append(dict(func='perms', cfg=dict(op=op, lvl=lv, n=n, at=at), cost=1, limits=T))
    for k in ('bin', 'cat', 'SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation'):
        for L in sizes([3, 6], 3, 8):
            J.append(dict(func='any_level', cfg=dict(L=L, kind=k), cost=3, limits=dict(time=15 if not big else 120)))
        for L in sizes([70, 200] if k in ('bin', 'cat') else [20], 9, 300 if k in ('bin', 'cat') else 40):
            J.append(dict(func='full_level', cfg=dict(L=L, kind=k), cost=3, limits=dict(time=15 if not big else 120)))
    return J
