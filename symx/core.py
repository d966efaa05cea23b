"""Symbolic execution core: path engine + symbolic proxies (SymBool/SymInt/SymFloat/SymStr/SymSet).

The real code of /repo (loaded by symx.load) runs on these proxies.  A truth test on a symbolic
condition asks z3 which sides are feasible and forks; an integer needed by C code (index, repeat
count, range bound ...) forks over its feasible values; everything else stays a z3 term.
"""
import time
import itertools
from fractions import Fraction
import z3


class PathAbort(BaseException):
    """path condition became infeasible / path left the stated bound."""
    def __init__(self, why='assume'):
        self.why = why


class BoundHit(PathAbort):
    """unrolling bound reached (random retry loop ...): counted, outside the claim."""


class PathTimeout(BaseException):
    pass


class Budget(BaseException):
    """job budget used up."""


ENG = None            # current engine


def frac(v):
    return Fraction(v)


def rv(v):
    """exact z3 real of a python number"""
    if isinstance(v, bool):
        v = int(v)
    f = Fraction(v)
    return z3.RealVal(f"{f.numerator}/{f.denominator}") if f.denominator != 1 else z3.RealVal(f.numerator)


class Engine:
    U = Fraction(1, 2 ** 53)          # unit roundoff of IEEE double
    ETA = Fraction(1, 2 ** 1074)

    def __init__(self, max_paths=200000, time_budget=600.0, max_decisions=4000, max_draws=400, path_time=60.0,
                 check_timeout_ms=20000, max_enum=4096):
        self.max_paths = max_paths
        self.deadline = time.time() + time_budget
        self.max_decisions = max_decisions
        self.max_draws = max_draws
        self.path_time = path_time
        self.max_enum = max_enum
        self.solver = z3.Solver()
        self.solver.set('timeout', check_timeout_ms)
        self.stats = dict(paths=0, completed=0, aborted=0, bound_cut=0, decisions=0, forks=0, queries=0, checks=0,
                          checks_unsat=0, checks_trivial=0, unknown=0, solver_s=0.0, partial=0, enum=0)
        self.partial_why = {}
        self.stack = []
        self.rounding = 'real'
        self.model_ = None
        self.lcg = 2024

    # -- exploration ------------------------------------------------------------------------
    def explore(self, fn):
        """fn() runs one path; yields nothing.  returns True when the space was exhausted."""
        global ENG
        ENG = self
        self.stack = [([], None)]
        while self.stack:
            if self.stats['paths'] >= self.max_paths or time.time() > self.deadline:
                return False
            # order of exploration only matters when the space is not exhausted: alternate depth-first with a
            # (deterministic) random pending branch so that a truncated exploration is not confined to one corner
            self.lcg = (1103515245 * self.lcg + 12345) & 0x7fffffff
            if len(self.stack) > 2 and (self.lcg >> 12) % 2:
                j = (self.lcg >> 13) % len(self.stack)
                self.stack[j], self.stack[-1] = self.stack[-1], self.stack[j]
            prefix, model = self.stack.pop()
            self.begin(prefix, model)
            self.stats['paths'] += 1
            fn()
        return True

    def begin(self, prefix, model):
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.solver.reset()
        self.pc = []
        self.start_model = model
        self.model_ = None
        self.nfresh = 0
        self.ndraws = 0
        self.nenum = 0
        self.bitmemo = {}
        self.rnd_terms = []
        self.hashed = []
        self.path_partial = False
        self.path_deadline = time.time() + self.path_time

    # -- solver -----------------------------------------------------------------------------
    def query(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r

    def add(self, e):
        self.solver.add(e)
        self.pc.append(e)
        if self.model_ is not None and not z3.is_true(self.model_.eval(e, model_completion=True)):
            self.model_ = None

    def model(self):
        if self.model_ is None:
            if self.pos >= len(self.prefix) and self.start_model is not None:
                m, self.start_model = self.start_model, None
                if all(z3.is_true(m.eval(c, model_completion=True)) for c in self.pc):
                    self.model_ = m
                    return m
            r = self.query()
            if r == z3.unsat:
                raise PathAbort('infeasible')
            if r == z3.unknown:
                raise BoundHit('solver-unknown')
            self.model_ = self.solver.model()
        return self.model_

    def fresh(self, sort, tag='v'):
        self.nfresh += 1
        return z3.Const(f'{tag}!{self.nfresh}', sort)

    # -- decisions --------------------------------------------------------------------------
    def _tick(self):
        self.stats['decisions'] += 1
        if len(self.trail) > self.max_decisions:
            raise BoundHit('decisions')
        if time.time() > self.path_deadline:
            raise PathTimeout()
        if time.time() > self.deadline:
            raise Budget()

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.prefix):
            d, forced = self.prefix[self.pos]
            self.pos += 1
            self.trail.append((d, forced))
            if not forced:
                self.add(e if d else z3.Not(e))
            return d
        self._tick()
        m = self.model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if v else e
        r = self.query(other)
        if r == z3.unsat:
            self.trail.append((v, True))
            return v
        self.stats['forks'] += 1
        m2 = self.solver.model() if r == z3.sat else None
        self.stack.append((self.trail + [(not v, False)], m2))
        self.trail.append((v, False))
        self.add(e if v else z3.Not(e))
        return v

    def branch_last(self, v):
        """decide a fresh Boolean: everything under False is explored before True"""
        if self.pos < len(self.prefix):
            return self.branch(v)
        self._tick()
        self.stats['forks'] += 1
        self.stack.append((self.trail + [(True, False)], None))
        self.trail.append((False, False))
        self.add(z3.Not(v))
        return False

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise PathAbort()
        self.add(e)
        if self.pos >= len(self.prefix):
            self.model()

    def concretize_int(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        n = 0
        while True:
            if self.pos < len(self.prefix):
                d, forced = self.prefix[self.pos]
                if not (isinstance(d, tuple)):
                    raise RuntimeError('nondeterministic replay of prefix')
                self.pos += 1
                self.trail.append((d, forced))
                v, eq = d
                if eq:
                    if not forced:
                        self.add(e == v)
                    return v
                self.add(e != v)
                n += 1
                continue
            self._tick()
            self.stats['enum'] += 1
            m = self.model()
            v = m.eval(e, model_completion=True).as_long()
            r = self.query(e != v)
            if r == z3.unsat:
                self.trail.append(((v, True), True))
                return v
            if n < self.max_enum:
                self.stats['forks'] += 1
                m2 = self.solver.model() if r == z3.sat else None
                self.stack.append((self.trail + [((v, False), False)], m2))
            else:
                self.partial('int-enum')
            self.trail.append(((v, True), False))
            self.add(e == v)
            return v

    def concretize_real(self, e, why='float'):
        e = z3.simplify(e)
        if not (z3.is_rational_value(e) or z3.is_int_value(e)):
            if self.pos < len(self.prefix):
                # the value is part of the recorded path: a re-run must not pick another one
                (v, part), forced = self.prefix[self.pos]
                self.pos += 1
                self.trail.append(((v, part), forced))
            else:
                v = self.model().eval(e, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                    if self.query(e == v) != z3.sat:
                        raise BoundHit('algebraic')
                part = self.query(e != v) != z3.unsat
                self.trail.append(((v, part), True))
            if part:
                self.partial(why)
            self.add(e == v)
            e = v
        return Fraction(e.numerator_as_long(), e.denominator_as_long())

    def hash_real(self, e):
        """hash of a symbolic float (dict key): equal to an earlier hashed one, decided by a branch, or a new value.
        Only symbolic keys are compared, so the path is marked partial."""
        e = z3.simplify(e)
        if z3.is_rational_value(e) or z3.is_int_value(e):
            q = Fraction(e.numerator_as_long(), e.denominator_as_long())
            h, key = hash(q), q
        else:
            h = key = None
        for e0, h0 in self.hashed:
            if e0.eq(e) or (key is None or h0 != h) and self.branch(e0 == e):
                return h0
        if h is None:
            h = 0x5EED0000 + len(self.hashed)
            self.partial('hash')
        self.hashed.append((e, h))
        return h

    def partial(self, why):
        self.path_partial = True
        self.stats['partial'] += 1
        self.partial_why[why] = self.partial_why.get(why, 0) + 1

    # -- float rounding ---------------------------------------------------------------------
    def fl(self, e):
        """result of one floating point operation whose exact value is e."""
        if self.rounding == 'real':
            return e
        e = z3.simplify(e)
        if z3.is_rational_value(e):
            q = Fraction(e.numerator_as_long(), e.denominator_as_long())
            try:
                if Fraction(float(q)) == q:
                    return e
            except OverflowError:
                pass
        for (e0, r0) in self.rnd_terms:
            if e0.eq(e):
                return r0
        if self.rounding == 'ieee':
            r = self.ieee(e)
            if r is not None:
                self.rnd_terms.append((e, r))
                return r
        r = self.fresh(z3.RealSort(), 'fl')
        ab = z3.If(e >= 0, e, -e)
        u = rv(self.U)
        eta = rv(self.ETA)
        self.add(z3.And(r - e <= u * ab + eta, e - r <= u * ab + eta))
        # rounding is monotone and exact on 0
        self.add(z3.And(z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0)))
        for (e0, r0) in self.rnd_terms:
            self.add(z3.And(z3.Implies(e0 <= e, r0 <= r), z3.Implies(e <= e0, r <= r0)))
        self.rnd_terms.append((e, r))
        return r

    def ieee(self, e):
        """exact round-to-nearest-even of e, as a term; None if the range of |e| spans too many binades"""
        ab = z3.If(e >= 0, e, -e)

        def p2(k):
            return rv(Fraction(2) ** k)
        hi = None
        for k in range(-4, 70, 2):
            if self.query(ab >= p2(k)) == z3.unsat:
                hi = k
                break
        if hi is None:
            return None
        lo = None
        for k in range(hi - 1, hi - 90, -3):
            if self.query(z3.And(ab < p2(k), ab > 0)) == z3.unsat:
                lo = k
                break
        if lo is None:
            return None

        def at(k):                       # 2^k <= |e| < 2^(k+1)
            sc = p2(k - 52)
            x = e / sc
            f = z3.ToInt(x + z3.RealVal('1/2'))
            tie = z3.ToReal(f) == x + z3.RealVal('1/2')
            return z3.ToReal(z3.If(z3.And(tie, f % 2 == 1), f - 1, f)) * sc
        r = at(hi - 1)
        for k in range(hi - 2, lo - 1, -1):
            r = z3.If(ab < p2(k + 1), at(k), r)
        v = self.fresh(z3.RealSort(), 'ieee')
        self.add(v == z3.If(e == 0, z3.RealVal(0), r))
        return v

    def anchor(self, x):
        """x is itself a double: rounding maps it to itself (monotonicity anchor)."""
        if self.rounding != 'real':
            for (e0, r0) in self.rnd_terms:
                if e0.eq(x):
                    return
            for (e0, r0) in self.rnd_terms:
                self.add(z3.And(z3.Implies(e0 <= x, r0 <= x), z3.Implies(x <= e0, x <= r0)))
            self.rnd_terms.append((x, x))


# ---------------------------------------------------------------------------------------------
class Sym:
    __slots__ = ()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_sym(x):
    return isinstance(x, Sym)


NUM = (bool, int, float, Fraction)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def bool_e(x):
    """z3 Bool of a python/symbolic truth value"""
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, SymInt):
        return x.ie() != 0
    if isinstance(x, SymFloat):
        return x.e != 0
    return z3.BoolVal(bool(x))


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.branch(self.e)

    def toint(self):
        return SymInt(bits=[self.e])

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(z3.And(self.e, bool_e(o))))
        return self.toint() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(z3.Or(self.e, bool_e(o))))
        return self.toint() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(z3.Xor(self.e, bool_e(o))))
        return self.toint() ^ o
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(z3.simplify(self.e == bool_e(o)))
        if isinstance(o, NUM) or isinstance(o, (SymInt, SymFloat)):
            return self.toint() == o
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return '<symbool>'


def neg(x):
    return mkbool(z3.simplify(z3.Not(x.e))) if isinstance(x, SymBool) else (not x)


def _delegate(name):
    def f(self, *a):
        return getattr(self.toint(), name)(*a)
    return f


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__ __floordiv__ __rfloordiv__ '
           '__mod__ __rmod__ __pow__ __rpow__ __lt__ __le__ __gt__ __ge__ __neg__ __abs__ __lshift__ __rshift__ '
           '__rlshift__ __rrshift__ __pos__ __invert__').split():
    setattr(SymBool, _n, _delegate(_n))


def const_bits(n):
    return [z3.BoolVal(bool((n >> i) & 1)) for i in range(n.bit_length())]


def bits_sum(bits):
    t = []
    for i, b in enumerate(bits):
        if z3.is_true(b):
            t.append(z3.IntVal(1 << i))
        elif not z3.is_false(b):
            t.append(z3.If(b, z3.IntVal(1 << i), z3.IntVal(0)))
    if not t:
        return z3.IntVal(0)
    return z3.Sum(t) if len(t) > 1 else t[0]


def mkint(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbits(bits):
    bits = [z3.simplify(b) for b in bits]
    while bits and z3.is_false(bits[-1]):
        bits.pop()
    if all(z3.is_true(b) or z3.is_false(b) for b in bits):
        return sum((1 << i) for i, b in enumerate(bits) if z3.is_true(b))
    return SymInt(bits=bits)


def mkfloat(e):
    return SymFloat(z3.simplify(e))


class SymInt(Sym):
    __slots__ = ('e', 'bits')

    def __init__(self, e=None, bits=None):
        self.e = e
        self.bits = bits

    def ie(self):
        if self.e is None:
            self.e = bits_sum(self.bits)
        return self.e

    def get_bits(self):
        """LSB-first list of z3 Bools; requires value >= 0 (forks on the sign). None if negative."""
        if self.bits is not None:
            return self.bits
        k = self.e.get_id()
        memo = ENG.bitmemo
        if k in memo:
            self.bits = memo[k][1]
            return self.bits
        if not ENG.branch(self.e >= 0):
            return None
        n = 1
        while n < 64 and ENG.query(self.e >= (1 << n)) != z3.unsat:
            n += 1
        bits = [ENG.fresh(z3.BoolSort(), 'bit') for _ in range(n)]
        ENG.add(bits_sum(bits) == self.e)
        memo[k] = (self.e, bits)
        self.bits = bits
        return bits

    # conversions
    def __index__(self):
        return ENG.concretize_int(self.ie())
    __int__ = __index__

    def __float__(self):
        return float(ENG.concretize_int(self.ie()))

    def __hash__(self):
        return hash(ENG.concretize_int(self.ie()))

    def __bool__(self):
        return ENG.branch(self.nz())

    def nz(self):
        if self.bits is not None:
            return z3.simplify(z3.Or(*self.bits))
        return self.e != 0

    def __repr__(self):
        return '<symint>'

    __str__ = __repr__

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self
    __floor__ = __ceil__ = __pos__ = lambda self: self

    def bit_length(self):
        b = self.get_bits()
        if b is None:
            return (-self).bit_length()
        for i in range(len(b) - 1, -1, -1):
            if ENG.branch(b[i]):
                return i + 1
        return 0

    def bit_count(self):
        b = self.get_bits()
        if b is None:
            return (-self).bit_count()
        return mkint(z3.Sum([z3.If(x, 1, 0) for x in b]) if b else z3.IntVal(0))

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    # arithmetic
    def _ar(self, o, fi, ff, swap=False):
        if isinstance(o, SymBool):
            o = o.toint()
        if isinstance(o, (int, SymInt)):
            b = o.ie() if isinstance(o, SymInt) else z3.IntVal(int(o))
            a = self.ie()
            if swap:
                a, b = b, a
            return mkint(fi(a, b))
        if isinstance(o, (float, Fraction, SymFloat)):
            a = SymFloat(z3.ToReal(self.ie()))
            return getattr(a, ff)(o)
        return NotImplemented

    def __add__(self, o):
        return self._ar(o, lambda a, b: a + b, '__add__')
    __radd__ = __add__

    def __sub__(self, o):
        return self._ar(o, lambda a, b: a - b, '__sub__')

    def __rsub__(self, o):
        return self._ar(o, lambda a, b: a - b, '__rsub__', True)

    def __mul__(self, o):
        if isinstance(o, (list, str, tuple)):
            return o * self.__index__()
        return self._ar(o, lambda a, b: a * b, '__mul__')
    __rmul__ = __mul__

    def tofloat(self):
        return SymFloat(z3.ToReal(self.ie()))

    def __truediv__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            o = as_int(o).tofloat()
        return self.tofloat().__truediv__(o)

    def __rtruediv__(self, o):
        return self.tofloat().__rtruediv__(o)

    def _divmod(self, o, swap):
        if isinstance(o, SymBool):
            o = o.toint()
        if not isinstance(o, (int, SymInt)):
            return NotImplemented
        a, b = self.ie(), (o.ie() if isinstance(o, SymInt) else z3.IntVal(int(o)))
        if swap:
            a, b = b, a
        if ENG.branch(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ENG.branch(b > 0):
            return mkint(a / b), mkint(a % b)
        # python: a // b == (-a) // (-b)
        q = (-a) / (-b)
        return mkint(q), mkint(a - q * b)

    def __floordiv__(self, o):
        if isinstance(o, (float, SymFloat)):
            return self.tofloat().__floordiv__(o)
        r = self._divmod(o, False)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = self._divmod(o, True)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        if isinstance(o, (float, SymFloat)):
            return self.tofloat().__mod__(o)
        r = self._divmod(o, False)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % (self.__index__(),)
        r = self._divmod(o, True)
        return r if r is NotImplemented else r[1]

    def __divmod__(self, o):
        return self._divmod(o, False)

    def __pow__(self, o, m=None):
        if isinstance(o, (SymInt, SymBool)):
            o = o.__index__()
        if isinstance(o, int):
            if o < 0:
                return 1 / (self ** (-o))
            r = 1
            for _ in range(o):
                r = self * r
            return r
        return self.tofloat() ** o

    def __rpow__(self, o):
        return o ** self.__index__()

    def __neg__(self):
        return mkint(-self.ie())

    def __abs__(self):
        if self.bits is not None:
            return self
        return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __invert__(self):
        return mkint(-self.ie() - 1)

    # comparisons
    def _cmp(self, o, op):
        if isinstance(o, SymBool):
            o = o.toint()
        if isinstance(o, (int, SymInt)):
            if self.bits is not None and isinstance(o, int) and o == 0:
                if op == 'eq' or op == 'le':
                    return mkbool(z3.simplify(z3.Not(self.nz())))
                if op == 'ne' or op == 'gt':
                    return mkbool(self.nz())
                if op == 'ge':
                    return True
                if op == 'lt':
                    return False
            if op in ('eq', 'ne') and self.bits is not None:
                ob = o.bits if isinstance(o, SymInt) else (const_bits(int(o)) if o >= 0 else None)
                if ob is not None:
                    n = max(len(self.bits), len(ob))
                    F = z3.BoolVal(False)
                    a = self.bits + [F] * (n - len(self.bits))
                    b = list(ob) + [F] * (n - len(ob))
                    e = z3.And([x == y for x, y in zip(a, b)]) if n else z3.BoolVal(True)
                    e = z3.simplify(e if op == 'eq' else z3.Not(e))
                    return mkbool(e)
            b = o.ie() if isinstance(o, SymInt) else z3.IntVal(int(o))
            return mkbool(z3.simplify(OPS[op](self.ie(), b)))
        if isinstance(o, (float, Fraction, SymFloat)):
            return self.tofloat()._cmp(o, op)
        if op == 'eq':
            return False
        if op == 'ne':
            return True
        return NotImplemented

    # bit operations
    def _bitop(self, o, f):
        if isinstance(o, SymBool):
            o = o.toint()
        if isinstance(o, int):
            if o < 0:
                return f2int(f, ENG.concretize_int(self.ie()), o)
            ob = const_bits(int(o))
        elif isinstance(o, SymInt):
            ob = o.get_bits()
        else:
            return NotImplemented
        a = self.get_bits()
        if a is None or ob is None:
            x = ENG.concretize_int(self.ie())
            y = ENG.concretize_int(o.ie()) if isinstance(o, SymInt) else o
            return f2int(f, x, y)
        n = max(len(a), len(ob))
        F = z3.BoolVal(False)
        a = list(a) + [F] * (n - len(a))
        ob = list(ob) + [F] * (n - len(ob))
        return mkbits([f(x, y) for x, y in zip(a, ob)])

    def __xor__(self, o):
        return self._bitop(o, z3.Xor)
    __rxor__ = __xor__

    def __and__(self, o):
        return self._bitop(o, z3.And)
    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, z3.Or)
    __ror__ = __or__

    def __rshift__(self, o):
        k = o.__index__()
        b = self.get_bits()
        if b is None:
            return self // (1 << k)
        return mkbits(list(b[k:]))

    def __lshift__(self, o):
        k = o.__index__()
        b = self.get_bits()
        if b is None:
            return self * (1 << k)
        return mkbits([z3.BoolVal(False)] * k + list(b))

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __rlshift__(self, o):
        return o << self.__index__()


def f2int(f, x, y):
    import operator
    return {z3.Xor: operator.xor, z3.And: operator.and_, z3.Or: operator.or_}[f](x, y)


def as_int(o):
    return o.toint() if isinstance(o, SymBool) else o


OPS = {
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
}


def real_e(o):
    """z3 Real of a number, or None"""
    if isinstance(o, SymFloat):
        return o.e
    if isinstance(o, SymInt):
        return z3.ToReal(o.ie())
    if isinstance(o, SymBool):
        return z3.If(o.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(o, NUM):
        return rv(o)
    try:                                      # numpy scalars
        return rv(float(o))
    except Exception:
        return None


def _special(o):
    return isinstance(o, float) and (o != o or o in (float('inf'), float('-inf')))


class SymFloat(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __float__(self):
        return float(ENG.concretize_real(self.e))

    def __int__(self):
        return ENG.concretize_int(self.trunc().ie()) if is_sym(self.trunc()) else self.trunc()

    def __hash__(self):
        return ENG.hash_real(self.e)

    def __bool__(self):
        return ENG.branch(self.e != 0)

    def __repr__(self):
        return '<symfloat>'

    __str__ = __repr__

    @property
    def real(self):
        return self

    def trunc(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))
    __trunc__ = trunc

    def __floor__(self):
        return mkint(z3.ToInt(self.e))

    def __ceil__(self):
        return mkint(-z3.ToInt(-self.e))

    def is_integer(self):
        return mkbool(z3.simplify(z3.IsInt(self.e)))

    def __round__(self, n=None):
        if n is not None:
            if isinstance(n, int) and n >= 0:
                k = (self * (10 ** n)).__round__()
                return k / (10 ** n)
            return round(float(self), n)
        f = z3.ToInt(self.e + z3.RealVal('1/2'))
        tie = z3.ToReal(f) == self.e + z3.RealVal('1/2')
        return mkint(z3.If(z3.And(tie, f % 2 == 1), f - 1, f))

    def _bin(self, o, f):
        if _special(o):
            return None
        b = real_e(o)
        if b is None:
            return NotImplemented
        return mkfloat(ENG.fl(f(self.e, b)))

    def __add__(self, o):
        if _special(o):
            return o
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        if _special(o):
            return -o
        if isinstance(o, (int, float)) and o == 0:
            return self
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _special(o):
            return o
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        if _special(o):
            return float(self) * o
        if isinstance(o, (int, float)) and o == 1:
            return self
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _special(o):
            return 0.0
        b = real_e(o)
        if b is None:
            return NotImplemented
        if ENG.branch(b == 0):
            raise ZeroDivisionError('float division by zero')
        return mkfloat(ENG.fl(self.e / b))

    def __rtruediv__(self, o):
        if _special(o):
            return o / float(self)
        a = real_e(o)
        if a is None:
            return NotImplemented
        if ENG.branch(self.e == 0):
            raise ZeroDivisionError('float division by zero')
        return mkfloat(ENG.fl(a / self.e))

    def __floordiv__(self, o):
        q = self / o
        return SymFloat(z3.ToReal(z3.ToInt(q.e))) if is_sym(q) else q // 1

    def __rfloordiv__(self, o):
        q = o / self
        return SymFloat(z3.ToReal(z3.ToInt(q.e)))

    def __mod__(self, o):
        return self - (self // o) * o

    def __pow__(self, o, m=None):
        if isinstance(o, (SymInt, SymBool)):
            o = o.__index__()
        if isinstance(o, float) and o.is_integer():
            o = int(o)
        if isinstance(o, int):
            if o < 0:
                return 1 / (self ** (-o))
            if o == 0:
                return 1.0
            r = self
            for _ in range(o - 1):
                r = r * self
            return r
        if isinstance(o, (float, Fraction)) and Fraction(o) == Fraction(1, 2):
            return sym_sqrt(self)
        return float(self) ** float(o)

    def __rpow__(self, o):
        return o ** float(self)

    def __neg__(self):
        return mkfloat(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkfloat(z3.If(self.e >= 0, self.e, -self.e))

    def _cmp(self, o, op):
        if _special(o):
            if o != o:
                return op == 'ne'
            big = o > 0
            return {'lt': big, 'le': big, 'gt': not big, 'ge': not big, 'eq': False, 'ne': True}[op]
        if isinstance(o, NUM) or is_sym(o):
            b = real_e(o) if not isinstance(o, (SymStr, SymSet)) else None
        else:
            b = None
        if b is None:
            if op == 'eq':
                return False
            if op == 'ne':
                return True
            return NotImplemented
        return mkbool(z3.simplify(OPS[op](self.e, b)))


def sym_sqrt(x):
    if ENG.branch(x.e < 0):
        raise ValueError('math domain error')
    r = ENG.fresh(z3.RealSort(), 'sqrt')
    ENG.add(z3.And(r >= 0, r * r == x.e))
    return SymFloat(r)


for _c in (SymInt, SymFloat):
    for _op in OPS:
        setattr(_c, f'__{_op}__', (lambda op: lambda self, o: self._cmp(o, op))(_op))


# ---------------------------------------------------------------------------------------------
class SymStr(Sym):
    """string of concrete length; each element a concrete 1-char str or a z3 Bool (True='1', False='0')."""
    __slots__ = ('ch',)

    def __init__(self, ch):
        self.ch = list(ch)

    @staticmethod
    def make(ch):
        if all(isinstance(c, str) for c in ch):
            return ''.join(ch)
        return SymStr(ch)

    def concrete(self):
        out = []
        for c in self.ch:
            out.append(c if isinstance(c, str) else ('1' if ENG.branch(c) else '0'))
        return ''.join(out)

    def __len__(self):
        return len(self.ch)

    def __bool__(self):
        return len(self.ch) > 0

    def __iter__(self):
        for c in self.ch:
            yield c if isinstance(c, str) else SymStr([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            return SymStr.make(self.ch[i])
        return SymStr.make([self.ch[i]])

    def __add__(self, o):
        if isinstance(o, SymStr):
            return SymStr.make(self.ch + o.ch)
        if isinstance(o, str):
            return SymStr.make(self.ch + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymStr.make(list(o) + self.ch)
        return NotImplemented

    def __mul__(self, n):
        return SymStr.make(self.ch * n.__index__())
    __rmul__ = __mul__

    def __eq__(self, o):
        if isinstance(o, (str, SymStr)):
            oc = list(o) if isinstance(o, str) else o.ch
            if len(oc) != len(self.ch):
                return False
            es = []
            for a, b in zip(self.ch, oc):
                if isinstance(a, str) and isinstance(b, str):
                    if a != b:
                        return False
                elif isinstance(a, str) or isinstance(b, str):
                    s, z = (a, b) if isinstance(a, str) else (b, a)
                    if s == '1':
                        es.append(z)
                    elif s == '0':
                        es.append(z3.Not(z))
                    else:
                        return False
                else:
                    es.append(a == b)
            return mkbool(z3.simplify(z3.And(es))) if es else True
        return False

    def __ne__(self, o):
        return neg(self == o)

    def __lt__(self, o):
        return self.concrete() < str_c(o)

    def __le__(self, o):
        return self.concrete() <= str_c(o)

    def __gt__(self, o):
        return self.concrete() > str_c(o)

    def __ge__(self, o):
        return self.concrete() >= str_c(o)

    def __contains__(self, o):
        if isinstance(o, (str, SymStr)) and len(o) == 1:
            for c in self:
                if c == o:
                    return True
            return False
        return str_c(o) in self.concrete()

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return self.concrete()

    def __repr__(self):
        return '<symstr>'

    def __format__(self, spec):
        return format(self.concrete(), spec)

    def __index__(self):
        raise TypeError("'str' object cannot be interpreted as an integer")

    # methods
    def zfill(self, n):
        n = n.__index__()
        return SymStr.make(['0'] * (n - len(self.ch)) + self.ch)

    def rjust(self, n, fill=' '):
        n = n.__index__()
        return SymStr.make([fill] * (n - len(self.ch)) + self.ch)

    def ljust(self, n, fill=' '):
        n = n.__index__()
        return SymStr.make(self.ch + [fill] * (n - len(self.ch)))

    def count(self, s):
        if isinstance(s, str) and len(s) == 1:
            r = 0
            for c in self:
                q = (c == s)
                r = r + (as_int(q) if is_sym(q) else int(q))
            return r
        return self.concrete().count(str_c(s))

    def join(self, it):
        out = []
        first = True
        for x in it:
            if not first:
                out += self.ch
            first = False
            out += x.ch if isinstance(x, SymStr) else list(x)
        return SymStr.make(out)

    def removeprefix(self, p):
        if self[:len(p)] == p:
            return self[len(p):]
        return self

    def startswith(self, p):
        return bool(self[:len(p)] == p) if len(p) <= len(self) else False

    def isdigit(self):
        return self.concrete().isdigit()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if hasattr(str, name):
            return getattr(self.concrete(), name)
        raise AttributeError(name)

    def to_int(self, base):
        if base != 2 or any(isinstance(c, str) and c not in '01' for c in self.ch):
            if len(self.ch) == 1 and base == 10 and not isinstance(self.ch[0], str):
                return mkbits([self.ch[0]])
            s = self.concrete()
            return int(s, base)
        bits = [z3.BoolVal(c == '1') if isinstance(c, str) else c for c in reversed(self.ch)]
        return mkbits(bits)


def str_c(o):
    return o.concrete() if isinstance(o, SymStr) else o


def int_to_binstr(v):
    """digits of bin(v) without prefix, v symbolic (forks on sign and bit length)"""
    b = v.get_bits()
    if b is None:
        s = int_to_binstr(-v) if is_sym(-v) else bin(-v)[2:]
        return '-' + s if isinstance(s, str) else SymStr(['-'] + s.ch)
    n = len(b)
    for i in range(n - 1, -1, -1):
        if ENG.branch(b[i]):
            return SymStr.make(['1'] + [c if not (z3.is_true(c) or z3.is_false(c)) else ('1' if z3.is_true(c) else '0')
                                        for c in reversed(b[:i])])
    return '0'


# ---------------------------------------------------------------------------------------------
def contains_sym(x, depth=6):
    if is_sym(x):
        return True
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(contains_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(contains_sym(y, depth - 1) for y in x.values())
    return False


def deep_eq(a, b):
    """python == as a (possibly symbolic) truth value, without forking on containers"""
    if a is b and not isinstance(a, float):
        return True
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and isinstance(a, list) == isinstance(b, list):
        if len(a) != len(b):
            return False
        es = []
        for x, y in zip(a, b):
            r = deep_eq(x, y)
            if isinstance(r, SymBool):
                es.append(r.e)
            elif not r:
                return False
        return mkbool(z3.simplify(z3.And(es))) if es else True
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        es = []
        for k in a:
            r = deep_eq(a[k], b[k])
            if isinstance(r, SymBool):
                es.append(r.e)
            elif not r:
                return False
        return mkbool(z3.simplify(z3.And(es))) if es else True
    return a == b


class SymSet(Sym):
    """set whose membership is decided by pairwise (symbolic) equality"""
    __slots__ = ('items',)

    def __init__(self, it=()):
        self.items = []
        for x in it:
            self.add(x)

    def add(self, x):
        if x not in self:
            self.items.append(x)

    def __contains__(self, x):
        for y in self.items:
            if deep_eq(x, y):
                return True
        return False

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def __iter__(self):
        return iter(self.items)

    def __hash__(self):
        raise TypeError("unhashable type: 'set'")

    def issubset(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return all(x in o for x in self.items)

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return all(x in self for x in o)

    issuperset = __ge__

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset, SymSet)):
            return False
        return len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self >= o

    def discard(self, x):
        for i, y in enumerate(self.items):
            if deep_eq(x, y):
                del self.items[i]
                return

    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def union(self, *its):
        r = SymSet(self.items)
        r.update(*its)
        return r

    def intersection(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet(x for x in self.items if x in o)

    def difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return SymSet(x for x in self.items if x not in o)

    def symmetric_difference(self, o):
        o = o if isinstance(o, SymSet) else SymSet(o)
        return self.difference(o).union(o.difference(self))

    def isdisjoint(self, o):
        return not any(x in self for x in o)

    def copy(self):
        return SymSet(self.items)

    __or__ = __ror__ = union
    __and__ = __rand__ = intersection
    __sub__ = difference
    __xor__ = __rxor__ = symmetric_difference

    def __rsub__(self, o):
        return SymSet(o).difference(self)

    def __ior__(self, o):
        self.update(o)
        return self

    def __deepcopy__(self, memo):
        return SymSet(self.items)


def neg_any(x):
    if isinstance(x, SymBool):
        return neg(x)
    return not x
