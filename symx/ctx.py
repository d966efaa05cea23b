"""Contexts: SymCtx (symbolic exploration) and ReplayCtx (concrete re-execution on the unpatched code)."""
import json
from fractions import Fraction


class CheckFailed(Exception):
    pass


class ReplayMismatch(BaseException):
    pass


class DrawBudget(BaseException):
    """more draws from a fixed stream than the harness allows (the code under test does not get anywhere)"""


class FuncModel:
    """an arbitrary (uninterpreted) objective function: equal arguments give equal results, nothing else is known."""

    def __init__(self, ctx, name, maker, nvals=None):
        self.ctx, self.name, self.maker, self.nvals = ctx, name, maker, nvals
        self.calls = []          # every call: list of argument copies
        self.table = []          # distinct (args, value)

    def value(self, args):
        for a, v in self.table:
            if self.ctx.truth(self.ctx.eq(a, args)):
                return v
        n = len(self.table)
        if self.nvals is None:
            v = self.maker(f'{self.name}.{n}')
        else:
            v = tuple(self.maker(f'{self.name}.{n}.{j}') for j in range(self.nvals))
        self.table.append((list(args), v))
        return v

    def __call__(self, args):
        self.calls.append(list(args))
        return self.value(list(args))


class BaseCtx:
    def __init__(self):
        self._patches = []
        self.covered = set()
        self.required = set()
        self.obs = {}
        self.seeds = []
        self.draw_log = []
        self.tallies = []
        self.expected = {}
        self._quiet = 0
        self._lcg = None
        self._left = None
        self.nstream = 0
        self.draw_cap = None
        self._sym_left = None
        self._near = None
        self._ends_after = None

    def then(self, k, seed):
        """the next k draws are explored; every later one comes from a fixed stream"""
        self._sym_left = (k, seed)

    def corners(self, extra=()):
        """from here on, integer draws over a long range are explored at both ends, in the middle and next to `extra`
        only (for assertions about every draw, never for reachability or probability)"""
        self._near = tuple(extra)

    def ends(self, k):
        """after the next k draws, integer draws over a long range are explored at both ends only (same restriction)"""
        self._ends_after = k

    def _sym_tick(self):
        if self._ends_after is not None:
            self._ends_after -= 1
            if self._ends_after < 0:
                self._ends_after, self._near = None, 'ends'

        if self._sym_left is not None:
            k, seed = self._sym_left
            if k == 0:
                self._sym_left = None
                self.high() if seed == 'high' else self.stream(seed)
            else:
                self._sym_left = (k - 1, seed)

    def quiet(self, on=True):
        """while on, random draws return a fixed value (not part of the explored space)"""
        self._quiet += 1 if on else -1

    def stream(self, seed, n=None):
        """from here on (for the next n draws), draws come from a fixed deterministic sequence (replayed identically)"""
        self.nstream = 0
        if n == 0:
            return
        self._left = n
        self._quiet += 1
        self._lcg = (seed * 7919 + 12345) & 0x7fffffff

    def high(self, n=None):
        """from here on (for the next n draws), every draw takes its largest value"""
        self.nstream = 0
        if n == 0:
            return
        self._left = n
        self._quiet += 1
        self._lcg = 'high'

    def _lcg_next(self):
        self._lcg = (1103515245 * self._lcg + 12345) & 0x7fffffff
        return self._lcg >> 8

    def _tick(self):
        self.nstream += 1
        if self.draw_cap is not None and self.nstream > self.draw_cap:
            raise DrawBudget()
        if self._left is not None:
            self._left -= 1
            if self._left == 0:
                self._left = None
                self._quiet -= 1

    def quiet_int(self, lo, hi, distinct):
        self._tick()
        lo, hi = self.concrete(lo), self.concrete(hi)
        free = [v for v in range(lo, hi + 1) if v not in distinct] if distinct else None
        n = len(free) if free is not None else hi - lo + 1
        k = 0 if self._lcg is None else n - 1 if self._lcg == 'high' else self._lcg_next() % n
        return free[k] if free is not None else lo + k

    def quiet_u(self):
        self._tick()
        if self._lcg == 'high':
            return 4095 / 4096.0
        return 0.0 if self._lcg is None else (self._lcg_next() % 4096) / 4096.0

    def tally(self, label):
        self.tallies.append(label)

    def expect_mass(self, label, p, tol, first=False, given=None):
        """the probability of `label` must be p (up to tol); first=k: as a function of the first k draws alone;
        given: conditional on another label; p may be a tuple of admissible values"""
        self.expected[label] = (p, tol, first, given)

    def patch(self, obj, attr, val):
        self._patches.append((obj, attr, obj.__dict__.get(attr, _MISSING)))
        setattr(obj, attr, val)

    def unpatch(self):
        for o, a, v in reversed(self._patches):
            if v is _MISSING:
                try:
                    delattr(o, a)
                except AttributeError:
                    pass
            else:
                setattr(o, a, v)
        self._patches = []

    def func(self, name, maker, nvals=None):
        return FuncModel(self, name, maker, nvals)

    def note_seed(self, a):
        self.seeds.append(a)

    def must_cover(self, *labels):
        self.required.update(labels)

    def raises(self, fn, /, *a, **k):
        """call fn; return the Exception it raises (None if it returns)"""
        try:
            fn(*a, **k)
        except CheckFailed:
            raise
        except Exception as e:
            return e
        return None


_MISSING = object()


class ReplayCtx(BaseCtx):
    mode = 'replay'

    def __init__(self, inputs, draws, exact=False):
        super().__init__()
        self.inputs = inputs
        self.script = list(draws)
        self.pos = 0
        self.failed = []
        self.exact = exact

    def truth(self, x):
        return bool(x)

    def eq(self, a, b):
        return a == b

    def same(self, a, b):
        return a == b

    def _get(self, name):
        if name not in self.inputs:
            raise ReplayMismatch(f'input {name} not in script')
        return self.inputs[name]

    def int(self, name, lo=None, hi=None):
        return int(self._get(name))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        q = Fraction(self._get(name))
        return q if self.exact else float(q)

    def bool(self, name):
        return bool(self._get(name))

    def bits(self, name, n):
        return list(self._get(name))

    def choose(self, name, options):
        return options[int(self._get(name))]

    def forget(self):
        import sys
        for n in list(sys.modules):
            if n == 'baumeva' or n.startswith('baumeva.'):
                del sys.modules[n]

    def stage(self, *labels):
        return bool(self._get('stage'))

    def assume(self, c):
        if not c:
            raise ReplayMismatch('assumption false in replay')

    def check(self, cond, msg):
        if not cond:
            self.failed.append(msg)
            raise CheckFailed(msg)

    def cover(self, label, cond=True):
        if cond:
            self.covered.add(label)

    def observe(self, name, v):
        self.obs[name] = plain(v)

    def _next(self, kind):
        if self.pos >= len(self.script):
            raise ReplayMismatch('more random draws than scripted')
        k, v = self.script[self.pos]
        self.pos += 1
        if k != kind:
            raise ReplayMismatch(f'draw kind {k} vs {kind}')
        return v

    def draw_int(self, lo, hi, distinct=()):
        if not self._quiet:
            self._sym_tick()
        if self._quiet:
            return self.quiet_int(lo, hi, distinct)
        v = int(self._next('i'))
        if not lo <= v <= hi or v in distinct:
            raise ReplayMismatch(f'draw {v} outside [{lo},{hi}]')
        self.draw_log.append(('i', lo, hi, v))
        return v

    def draw_u(self):
        if not self._quiet:
            self._sym_tick()
        if self._quiet:
            return self.quiet_u()
        v = float(Fraction(self._next('u')))
        if v >= 1.0:
            v = 1.0 - 2.0 ** -53
        self.draw_log.append(('u', 0, 1, v))
        return v

    def draw_any(self):
        if not self._quiet:
            self._sym_tick()
        if self._quiet:
            return self.quiet_u()
        return float(Fraction(self._next('g')))

    def pick(self, seq, i):
        return seq[i]

    def concrete(self, v):
        return v

    def rounding(self, mode):
        pass

    def bound(self, why='bound'):
        raise ReplayMismatch('path is outside the stated bound: ' + why)


def plain(v):
    """JSON-able form of a concrete value"""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, int):
        return v
    if isinstance(v, (float, Fraction)):
        return {'r': str(Fraction(v))} if v == v and abs(v) != float('inf') else {'r': 'nan'}
    if isinstance(v, dict):
        return {str(k): plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return '<obj>'


def obs_equal(a, b):
    if any(isinstance(x, dict) and set(x) == {'r'} and isinstance(x['r'], str) for x in (a, b)):
        def num(x):
            if isinstance(x, dict):
                return float(Fraction(x['r'])) if x['r'] != 'nan' else float('nan')
            return float(x)
        try:
            x, y = num(a), num(b)
        except Exception:
            return False
        return abs(x - y) <= 1e-6 * (1 + abs(x) + abs(y))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(obs_equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(obs_equal(x, y) for x, y in zip(a, b))
    return a == b
