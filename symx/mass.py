"""Exact probability mass of a path condition over its random draws (uniform draws).

Each draw is an integer uniform on [lo, hi] or a real uniform on [0, 1).  Conditions may only mention draws.  Integer
draws are counted by evaluating the path condition; for a real draw the condition is piecewise linear in it and the
breakpoints are computed exactly.
"""
from fractions import Fraction
import z3


class Unsupported(Exception):
    pass


def consts(e, memo):
    i = e.get_id()
    if i in memo:
        return memo[i]
    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        r = frozenset([e.decl().name()])
    else:
        r = frozenset()
        for c in e.children():
            r |= consts(c, memo)
    memo[i] = r
    return r


def _num(v):
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise Unsupported(str(v))


CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ}


def atoms(e, out, seen):
    if e.get_id() in seen:
        return
    seen.add(e.get_id())
    for c in e.children():
        atoms(c, out, seen)
    if z3.is_app(e) and e.decl().kind() in CMP and not z3.is_bool(e.arg(0)):
        out.append(e)


def q(v):
    return z3.RealVal(f'{v.numerator}/{v.denominator}')


COMP = {}


def compiled(e):
    """the term as a Python function of (the name of) its single real constant: exact evaluation with fractions"""
    i = e.get_id()
    if i in COMP:
        return COMP[i][1]
    f = _compile(e)
    COMP[i] = (e, f)
    return f


def _compile(e):
    k = e.decl().kind()
    if z3.is_int_value(e) or z3.is_rational_value(e):
        v = _num(e)
        return lambda x: v
    if k == z3.Z3_OP_TRUE:
        return lambda x: True
    if k == z3.Z3_OP_FALSE:
        return lambda x: False
    if k == z3.Z3_OP_UNINTERPRETED and e.num_args() == 0 and z3.is_real(e):
        return lambda x: x
    c = [compiled(a) for a in e.children()]
    if k == z3.Z3_OP_ADD:
        return lambda x: sum(f(x) for f in c)
    if k == z3.Z3_OP_MUL:
        def mul(x):
            r = 1
            for f in c:
                r = r * f(x)
            return r
        return mul
    if k == z3.Z3_OP_AND:
        return lambda x: all(f(x) for f in c)
    if k == z3.Z3_OP_OR:
        return lambda x: any(f(x) for f in c)
    if len(c) == 1:
        a = c[0]
        if k == z3.Z3_OP_UMINUS:
            return lambda x: -a(x)
        if k == z3.Z3_OP_NOT:
            return lambda x: not a(x)
        if k == z3.Z3_OP_TO_REAL:
            return a
    if len(c) == 2:
        a, b = c
        if k == z3.Z3_OP_SUB:
            return lambda x: a(x) - b(x)
        if k == z3.Z3_OP_LE:
            return lambda x: a(x) <= b(x)
        if k == z3.Z3_OP_LT:
            return lambda x: a(x) < b(x)
        if k == z3.Z3_OP_GE:
            return lambda x: a(x) >= b(x)
        if k == z3.Z3_OP_GT:
            return lambda x: a(x) > b(x)
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
            return lambda x: a(x) == b(x)
        if k == z3.Z3_OP_IMPLIES:
            return lambda x: (not a(x)) or b(x)
    if len(c) == 3 and k == z3.Z3_OP_ITE:
        a, b, d = c
        return lambda x: b(x) if a(x) else d(x)
    raise Unsupported(str(e.decl()))


PARSED = {}


def parsed(c):
    i = c.get_id()
    if i not in PARSED:
        at = []
        atoms(c, at, set())
        PARSED[i] = (c, [(compiled(a.arg(0)), compiled(a.arg(1))) for a in at], compiled(c))
    return PARSED[i][1:]


def real_pieces(x, conj):
    """list of (a, b) sub-intervals of [0,1) on which conj (over the single real x) holds.  Conjuncts are applied one after
    another to the pieces left; inside a piece the roots of the (piecewise linear) atoms are the only points where truth
    can change, the atoms of an inner if-then-else coming first."""
    todo, parts = [conj], []
    while todo:
        c = todo.pop()
        if z3.is_and(c):
            todo += c.children()
        else:
            parts.append(c)
    pieces = [(Fraction(0), Fraction(1))]
    for c in reversed(parts):
        at, truth = parsed(c)
        out = []
        for piece in pieces:
            bps = list(piece)
            for l, r in at:
                new = []
                for lo, hi in zip(bps, bps[1:]):
                    w = (hi - lo) / 3
                    p1, p2 = lo + w, lo + 2 * w
                    v1, v2 = l(p1) - r(p1), l(p2) - r(p2)
                    if v1 == v2:
                        continue
                    root = p1 + (p2 - p1) * (-v1) / (v2 - v1)
                    if lo < root < hi:
                        new.append(root)
                if new:
                    bps = sorted(set(bps + new))
            for lo, hi in zip(bps, bps[1:]):
                if truth((lo + hi) / 2):
                    if out and out[-1][1] == lo:
                        out[-1] = (out[-1][0], hi)
                    else:
                        out.append((lo, hi))
        pieces = out
    return pieces


def path_measure(pc, draws):
    """draws: list of (kind, term, lo, hi, nprev_distinct).  returns list per draw component:
    {idxs, mass, sets}; sets only for single-draw components (for projections)."""
    memo = {}
    names = {}
    for i, (kind, term, lo, hi, nd) in enumerate(draws):
        for c in consts(term, memo):
            names[c] = i
    groups = {i: {i} for i in range(len(draws))}
    conjs = []
    for c in pc:
        cs = consts(c, memo)
        ids = set()
        for n in cs:
            if n not in names:
                raise Unsupported(f'condition on {n}')
            ids.add(names[n])
        if ids:
            conjs.append((ids, c))
            m = set()
            for i in ids:
                m |= groups[i]
            for i in m:
                groups[i] = m
    comps = []
    done = set()
    for i in range(len(draws)):
        if i in done:
            continue
        g = sorted(groups[i])
        done |= set(g)
        cj = [c for ids, c in conjs if ids & set(g)]
        comps.append((g, z3.And(cj) if cj else z3.BoolVal(True)))
    res = []
    for g, cj in comps:
        if len(g) == 1 and draws[g[0]][0] == 'u':
            ps = real_pieces(draws[g[0]][1], cj)
            res.append({'idxs': g, 'mass': sum((b - a for a, b in ps), Fraction(0)), 'pieces': ps})
            continue
        if any(draws[i][0] != 'i' for i in g):
            raise Unsupported('joint real draws')
        key = (cj.get_id(), tuple((draws[i][1].get_id(), draws[i][2:]) for i in g if not is_expr(draws[i])))
        if key in CACHE and not any(is_expr(draws[i]) for i in g):
            tot, vals = CACHE[key][1]
        else:
            tot, vals = count_ints([draws[i] for i in g], cj)
            CACHE[key] = (cj, (tot, vals))
        res.append({'idxs': g, 'mass': tot, 'vals': vals})
    return res


CACHE = {}


def is_expr(d):
    return not (isinstance(d[2], int) and isinstance(d[3], int))


def bound_of(b, sub):
    """value of a draw's bound once the earlier draws are fixed"""
    if isinstance(b, int):
        return b
    e = b.ie() if hasattr(b, 'ie') else b
    v = z3.simplify(z3.substitute(e, *sub)) if sub else z3.simplify(e)
    if not z3.is_int_value(v):
        raise Unsupported('bound of a draw depends on something else')
    return v.as_long()


def count_ints(ds, cj):
    """(probability that cj holds, {tuple of values: probability} or None when there are too many)"""
    if len(ds) == 1 and not is_expr(ds[0]) and z3.is_const(ds[0][1]) and ds[0][3] - ds[0][2] > 40:
        r = count_linear(ds[0], cj)
        if r is not None:
            return r, None
    tot = Fraction(0)
    vals = {}
    left = [60000]

    def rec(k, e, sub, w, used):
        nonlocal tot
        if z3.is_false(e):
            return
        if k == len(ds):
            if z3.is_true(e):
                tot += w
                vals[tuple(used)] = w
                return
            raise Unsupported('condition not decided by the draws')
        kind, term, lo, hi, nd = ds[k]
        lo, hi = bound_of(lo, sub), bound_of(hi, sub)
        for v in range(lo, hi + 1):
            left[0] -= 1
            if left[0] < 0:
                raise Unsupported('too many joint values')
            sv = subst(term, v)
            rec(k + 1, z3.simplify(z3.substitute(e, *sv)) if sv else e, sub + sv, w / (hi - lo + 1 - nd), used + [v])
    rec(0, z3.simplify(cj), [], Fraction(1), [])
    return tot, vals


def count_linear(d, cj):
    """one integer draw over a large range: truth is constant between the roots of the (linear) atoms"""
    kind, x, lo, hi, nd = d
    at = []
    atoms(cj, at, set())
    pts = {lo, hi}

    def val(e, v):
        return _num(z3.simplify(z3.substitute(e, (x, z3.IntVal(v)))))
    for a in at:
        l, r = a.arg(0), a.arg(1)
        try:
            v0, v1 = val(l, lo) - val(r, lo), val(l, hi) - val(r, hi)
            for t in (lo + (hi - lo) // 3, lo + (hi - lo) // 2, hi - 7):
                if val(l, t) - val(r, t) != v0 + (v1 - v0) * Fraction(t - lo, hi - lo):
                    return None
        except Unsupported:
            return None
        if v0 != v1:
            root = lo - v0 * (hi - lo) / (v1 - v0)
            f = root.numerator // root.denominator
            pts |= {p for p in (f - 1, f, f + 1, f + 2) if lo <= p <= hi}
    if has_ite(cj):
        return None
    pts = sorted(pts)

    def holds(v):
        e = z3.simplify(z3.substitute(cj, (x, z3.IntVal(v))))
        if z3.is_true(e):
            return 1
        if z3.is_false(e):
            return 0
        raise Unsupported('condition not decided by the draws')
    n = sum(holds(p) for p in pts)
    for a, b in zip(pts, pts[1:]):
        if b - a > 1:
            n += holds(a + 1) * (b - a - 1)
    return Fraction(n, hi - lo + 1)


def has_ite(e, seen=None):
    seen = set() if seen is None else seen
    if e.get_id() in seen:
        return False
    seen.add(e.get_id())
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return True
    return any(has_ite(c, seen) for c in e.children())


def subst(term, v):
    """substitution making the draw term equal v"""
    if z3.is_int_value(term):
        return []
    if z3.is_const(term):
        return [(term, z3.IntVal(v))]
    out = []
    for b in _bits(term):
        out.append((b, z3.BoolVal(bool((v >> int(b.decl().name().split('.')[1])) & 1))))
    return out


def _bits(e):
    if z3.is_const(e) and z3.is_bool(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return [e]
    r = []
    for c in e.children():
        r += _bits(c)
    return r


def union_len(pieces):
    pieces = sorted(pieces)
    tot, end = Fraction(0), None
    for a, b in pieces:
        if end is None or a > end:
            tot += b - a
            end = b
        elif b > end:
            tot += b - end
            end = b
    return tot


def project(comps, k):
    """the set of first-k-draw values compatible with this path: ('r', pieces) or ('i', {tuple: weight})"""
    mine = [c for c in comps if any(i < k for i in c['idxs'])]
    if any(i >= k for c in mine for i in c['idxs']):
        raise Unsupported('first draws not separable')
    if len(mine) == 1 and 'pieces' in mine[0]:
        return ('r', mine[0]['pieces'])
    if any('pieces' in c for c in mine):
        raise Unsupported('mixed first draws')
    out = {(): Fraction(1)}
    for c in mine:
        if c['vals'] is None:
            raise Unsupported('first draws not enumerated')
        new = {}
        for t, w in out.items():
            for v, pv in c['vals'].items():
                new[t + tuple(zip(c['idxs'], v))] = w * pv
        out = new
    return ('i', {tuple(sorted(t)): w for t, w in out.items()})
