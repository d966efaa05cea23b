"""What harness code uses.  Works on symbolic proxies and on plain values (replay)."""
try:
    import z3
    from .core import (is_sym, SymBool, SymInt, SymFloat, SymStr, bool_e, mkbool, mkint, mkfloat, real_e, deep_eq,
                       contains_sym, as_int)
    SYM = True
except ImportError:                 # replay interpreter has no z3
    SYM = False

    def is_sym(x):
        return False

    def contains_sym(x, d=6):
        return False

TOL = 1e-9


def And(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    es = []
    for x in xs:
        if is_sym(x):
            es.append(bool_e(x))
        elif not x:
            return False
    if not es:
        return True
    return mkbool(z3.simplify(z3.And(es)))


def Or(*xs):
    xs = xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs
    es = []
    for x in xs:
        if is_sym(x):
            es.append(bool_e(x))
        elif x:
            return True
    if not es:
        return False
    return mkbool(z3.simplify(z3.Or(es)))


def Not(x):
    if is_sym(x):
        return mkbool(z3.simplify(z3.Not(bool_e(x))))
    return not x


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if is_sym(a) or is_sym(b):
        return mkbool(z3.simplify(bool_e(a) == bool_e(b)))
    return bool(a) == bool(b)


def eq(a, b):
    """exact equality as a truth value (no forking)"""
    if contains_sym(a) or contains_sym(b):
        return deep_eq(a, b)
    return a == b


def ne(a, b):
    return Not(eq(a, b))


def close(a, b, tol=TOL):
    """numeric equality up to relative/absolute rounding tolerance"""
    if is_sym(a) or is_sym(b):
        x, y = real_e(a), real_e(b)
        d = z3.If(x >= y, x - y, y - x)
        m = z3.If(x >= 0, x, -x) + z3.If(y >= 0, y, -y) + 1
        from .core import rv
        return mkbool(z3.simplify(d <= rv(tol) * m))
    return abs(a - b) <= tol * (abs(a) + abs(b) + 1)


def le_tol(a, b, tol=TOL):
    """a <= b up to rounding"""
    if is_sym(a) or is_sym(b):
        return Or(a <= b, close(a, b, tol))
    return a <= b or close(a, b, tol)


def count(conds):
    """number of true conditions"""
    t = 0
    es = []
    for c in conds:
        if is_sym(c):
            es.append(z3.If(bool_e(c), 1, 0))
        elif c:
            t += 1
    if not es:
        return t
    return mkint(z3.Sum(es) + t)


def ite(c, a, b):
    if is_sym(c):
        if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
            A = a.ie() if is_sym(a) else z3.IntVal(a)
            B = b.ie() if is_sym(b) else z3.IntVal(b)
            return mkint(z3.If(bool_e(c), A, B))
        return mkfloat(z3.If(bool_e(c), real_e(a), real_e(b)))
    return a if c else b


def all_distinct(xs):
    xs = list(xs)
    cs = []
    for i in range(len(xs)):
        for j in range(i):
            cs.append(ne(xs[i], xs[j]))
    return And(cs)


def member(x, xs):
    return Or([eq(x, y) for y in xs])


def same_multiset(a, b):
    """a and b are permutations of each other (symbolic elements allowed)"""
    a, b = list(a), list(b)
    if len(a) != len(b):
        return False
    return And([eq(count([eq(x, y) for y in a]), count([eq(x, y) for y in b])) for x in a])


def is_bit(x):
    if is_sym(x):
        return isinstance(x, SymStr) and len(x) == 1
    return x == '0' or x == '1'


def bit(x):
    """'0'/'1' -> 0/1"""
    if is_sym(x):
        return x.to_int(2)
    return int(x)


def maxof(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x > r, x, r)
    return r


def minof(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r
