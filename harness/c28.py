"""C28: rearranging operators make exactly the advertised move."""
from .common import *

FUNCTIONS = ['SwapMutation.get_mutation', 'InversionMutation.get_mutation', 'MovementMutation.get_mutation',
             'ShiftMutation.get_mutation', 'BaseCombinatoryMutation.execute', 'OrderCrossover.execute/crossover']
BOUNDS = ('mutations: genotype length 2..6 and 11 (quick) / 2..12 (thorough), genes symbolic and pairwise distinct, 12 and 16/24 (and around new constants) with fixed genes; order crossover: '
          'lengths 3..20 (quick) / 3..30 (thorough) with fixed parents, 3..5 with an arbitrary second parent; all draws symbolic')
ASSUMPTIONS = ['order crossover and shift mutation need >= 3 genes']


def _c(name):
    import baumeva.ga as g
    return getattr(g, name)


def moves(op, g):
    """all arrangements the documented move can produce from g"""
    L = len(g)
    out = []
    if op == 'SwapMutation':
        for i in range(L):
            for j in range(i + 1, L):
                h = list(g)
                h[i], h[j] = h[j], h[i]
                out.append((f'swap {i},{j}', h))
    elif op == 'InversionMutation':
        for i in range(L):
            for j in range(i + 1, L):
                out.append((f'reverse {i}..{j}', g[:i] + g[i:j + 1][::-1] + g[j + 1:]))
    elif op == 'MovementMutation':
        for i in range(L):
            for j in range(L):
                if i != j:
                    h = list(g)
                    z = h.pop(i)
                    h.insert(j, z)
                    out.append((f'move {i} to {j}', h))
    else:
        for n in range(1, L - 1):
            for s in range(0, L - n + 1):
                rest = g[:s] + g[s + n:]
                for t in range(len(rest) + 1):
                    if t != s:
                        out.append((f'shift {s}+{n} to {t}', rest[:t] + g[s:s + n] + rest[t:]))
    return out


def move(ctx, op, L):
    g = [ctx.int(f'g{i}', 0, 1000) for i in range(L)]
    ctx.assume(all_distinct(g))
    pop = cat_pop([list(range(L))], gens=(0, 1000, L), cls=_c('OrderCatPopulation'))
    d = ga(pop)
    d.children = pop.get_empty_copy()
    c = pop.get_empty_individ()
    c['genotype'] = list(g)
    d.children.append(c)
    _c(op)(mutation_lvl=1.0).execute(d)
    h = list(d.children[0]['genotype'])
    ctx.observe('child', h)
    ms = moves(op, g)
    ctx.check(len(h) == L, 'same length')
    ctx.check(Or([eq(h, m) for _, m in ms]), f'{op} makes one documented move')
    for lab, m in ms:
        ctx.must_cover(f'{op} L={L}: {lab}')
        ctx.cover(f'{op} L={L}: {lab}', eq(h, m))


def move_fixed(ctx, op, L):
    """longer chromosomes: fixed distinct genes, all draws"""
    g = list(range(L))
    pop = cat_pop([g], gens=(0, L - 1, L), cls=_c('OrderCatPopulation'))
    d = ga(pop)
    d.children = pop.get_empty_copy()
    c = pop.get_empty_individ()
    c['genotype'] = list(g)
    d.children.append(c)
    _c(op)(mutation_lvl=1.0).execute(d)
    h = list(d.children[0]['genotype'])
    ctx.observe('child', h)
    if (op, L) not in FIXED:
        FIXED[op, L] = {}
        for lab, m in moves(op, g):
            FIXED[op, L].setdefault(tuple(m), lab)
    ms = FIXED[op, L]
    h = tuple(h)
    ctx.check(h in ms, f'{op} makes one documented move')
    ctx.must_cover(*ms.values())
    ctx.cover(ms[h])


FIXED = {}


def ox(a, b, i, j):
    """documented order crossover: a[i:j] kept, the rest from b starting after the segment, wrapping around"""
    seg = a[i:j]
    rest = [x for x in b if x not in seg]
    L = len(a)
    out = [None] * L
    out[i:j] = seg
    pos = [k % L for k in range(j, j + L - (j - i))]
    for k, x in zip(pos, rest):
        out[k] = x
    return out


def order(ctx, p1, p2):
    pop = cat_pop([p1, p2], gens=(min(p1 + p2), max(p1 + p2), len(p1)), cls=_c('OrderCatPopulation'))
    d = ga(pop)
    set_parents(d, [0, 1])
    _c('OrderCrossover')().execute(d)
    c = list(d.children[0]['genotype'])
    ctx.observe('child', c)
    L = len(p1)
    alts = []
    for a, b, t in ((p1, p2, 'first'), (p2, p1, 'second')):
        for i in range(1, L):
            for j in range(i + 1, L):
                alts.append((f'order L={L}: segment {i}:{j} of the {t} parent', ox(a, b, i, j)))
    ctx.check(Or([c == m for _, m in alts]), 'order crossover keeps a segment and the order of the other parent')
    for lab, m in alts:
        ctx.must_cover(lab)
        ctx.cover(lab, c == m)


def order_any(ctx, L):
    """second parent any arrangement"""
    p1 = list(range(L))
    p2 = [ctx.int(f'q{i}', 0, L - 1) for i in range(L)]
    ctx.assume(all_distinct(p2))
    pop = cat_pop([p1, p2], gens=(0, L - 1, L), cls=_c('OrderCatPopulation'))
    d = ga(pop)
    set_parents(d, [0, 1])
    _c('OrderCrossover')().execute(d)
    c = list(d.children[0]['genotype'])
    ctx.observe('child', c)
    ctx.check(len(c) == L, 'same length')

    def fits(a, b):
        alts = []
        for i in range(1, L):
            for j in range(i + 1, L):
                pos = [k % L for k in range(j, j + L - (j - i))]
                order = []
                seq = [c[k] for k in pos]
                # seq is the subsequence of b: positions in b increase
                for x, y in zip(seq, seq[1:]):
                    order.append(Or([And(eq(b[m], x), eq(b[n], y)) for m in range(L) for n in range(m + 1, L)]))
                alts.append(And(eq(c[i:j], a[i:j]), *order))
        return Or(alts)
    ctx.check(Or(fits(p1, p2), fits(p2, p1)), 'order crossover keeps a segment and the order of the other parent')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for op in ('SwapMutation', 'InversionMutation', 'MovementMutation', 'ShiftMutation'):
        lo = 3 if op == 'ShiftMutation' else 2
        for L in sizes(list(range(lo, 13 if big else 7)) + [11], lo, 20):
            J.append(dict(func='move', cfg=dict(op=op, L=L), cost=L, limits=dict(time=(60 if L < 11 or op != 'ShiftMutation' else 25) if not big else 600)))
        for L in sorted({c + e for c in new_consts() for e in (0, 1, 2, 3, 4) if 7 <= c + e <= (18 if op == 'ShiftMutation' else 40)}
                        | {12, 16 if op == 'ShiftMutation' else 24}
                        | {2 * c + 2 for c in new_consts() if op == 'ShiftMutation' and 4 < c <= 12}):
            J.append(dict(func='move_fixed', cfg=dict(op=op, L=L), cost=L, limits=dict(time=200 if not big else 600)))
    for L in sizes([3, 4, 5, 7, 12, 20] + ([9, 11, 30] if big else []), 3, 30):
        p = list(range(L))
        for q in (p[::-1], p[1:] + p[:1], p[::2] + p[1::2], [10 + x if x % 2 else x for x in p]):
            J.append(dict(func='order', cfg=dict(p1=p, p2=q), cost=2))
    for L in (3, 4) + ((5,) if big else ()):
        J.append(dict(func='order_any', cfg=dict(L=L), cost=6))
    return J
