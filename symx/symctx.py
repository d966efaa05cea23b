import z3
from fractions import Fraction
from . import core
from .core import (SymBool, SymInt, SymFloat, SymStr, is_sym, bool_e, mkbool, mkint, rv, deep_eq, PathAbort, BoundHit,
                   contains_sym, as_int)
from .ctx import BaseCtx


class StopJob(BaseException):
    pass


def zval(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return str(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    raise ValueError(f'no value for {e}: {v}')


class SymCtx(BaseCtx):
    mode = 'sym'

    def __init__(self, eng, job):
        super().__init__()
        self.eng = eng
        self.job = job
        self.vars = {}            # name -> (kind, z3 term(s))
        self.draws = []           # (kind, term)
        self.draw_meta = []       # (kind, term, lo, hi, number of earlier draws it must differ from)

    # -- values -----------------------------------------------------------------------------
    def truth(self, x):
        return bool(x)

    def eq(self, a, b):
        return deep_eq(a, b)

    def same(self, a, b):
        """structural identity (stream bookkeeping)"""
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if is_sym(x) or is_sym(y):
                r = deep_eq(x, y)
                if is_sym(r):
                    if not bool(r):
                        return False
                elif not r:
                    return False
            elif x != y:
                return False
        return True

    def _new(self, name):
        assert name not in self.vars, f'duplicate input {name}'

    def int(self, name, lo=None, hi=None):
        self._new(name)
        v = z3.Int(name)
        self.vars[name] = ('i', v)
        if lo is not None:
            self.eng.add(v >= lo)
        if hi is not None:
            self.eng.add(v <= hi)
        return SymInt(v)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        self._new(name)
        v = z3.Real(name)
        self.vars[name] = ('r', v)
        if lo is not None:
            self.eng.add(v > rv(lo) if lo_open else v >= rv(lo))
        if hi is not None:
            self.eng.add(v < rv(hi) if hi_open else v <= rv(hi))
        self.eng.anchor(v)                         # inputs are doubles
        return SymFloat(v)

    def bool(self, name):
        self._new(name)
        v = z3.Bool(name)
        self.vars[name] = ('b', v)
        return SymBool(v)

    def bits(self, name, n):
        self._new(name)
        bs = [z3.Bool(f'{name}[{i}]') for i in range(n)]
        self.vars[name] = ('s', bs)
        return [SymStr([b]) for b in bs]

    def choose(self, name, options):
        if len(options) == 1:
            self.vars[name] = ('i', z3.IntVal(0))
            return options[0]
        return options[self.int(name, 0, len(options) - 1).__index__()]

    def forget(self):
        """back to the state right after importing the library"""
        from . import load, job
        load.restore(job.SNAP)

    def stage(self, *labels):
        """two stages: False (a cheap part of the space) is explored first; True (all of it) only if some label is still
        uncovered afterwards"""
        self._new('stage')
        v = z3.Bool('stage')
        self.vars['stage'] = ('b', v)
        full = self.eng.branch_last(v)
        if full and all(x in self.job.covered for x in labels):
            raise PathAbort()
        return full

    def assume(self, c):
        self.eng.assume(bool_e(c))

    def concrete(self, v):
        if isinstance(v, SymInt):
            return v.__index__()
        if isinstance(v, SymBool):
            return bool(v)
        if isinstance(v, SymStr):
            return v.concrete()
        return v

    def rounding(self, mode):
        self.eng.rounding = mode

    def bound(self, why='bound'):
        raise BoundHit(why)

    # -- verdicts -----------------------------------------------------------------------------
    def check(self, cond, msg):
        eng = self.eng
        eng.stats['checks'] += 1
        e = z3.simplify(bool_e(cond))
        if z3.is_true(e):
            eng.stats['checks_trivial'] += 1
            self.job.note_check(msg)
            return
        eng.model()                                # path must be feasible here
        r = eng.query(z3.Not(e))
        self.job.note_check(msg)
        if r == z3.unsat:
            eng.stats['checks_unsat'] += 1
            self.job.sample_query(eng, e)
            return
        if r == z3.unknown:
            self.job.note_unknown(msg)
            return
        self.job.candidate(self, 'check', msg, z3.Not(e), eng.solver.model())
        eng.assume(e)

    def cover(self, label, cond=True):
        if label in self.job.covered:
            return
        e = z3.simplify(bool_e(cond))
        if z3.is_false(e):
            return
        if self.eng.query(e) == z3.sat:
            self.job.covered.add(label)

    def observe(self, name, v):
        import copy
        self.obs[name] = copy.deepcopy(v)

    # -- randomness ---------------------------------------------------------------------------
    def _count(self):
        self.eng.ndraws += 1
        if self.eng.ndraws > self.eng.max_draws:
            raise BoundHit('draws')

    def draw_int(self, lo, hi, distinct=()):
        if not self._quiet:
            self._sym_tick()
        if self._quiet:
            return self.quiet_int(lo, hi, distinct)
        self._count()
        n = len(self.draws)
        if isinstance(lo, int) and isinstance(hi, int) and lo == 0 and hi > 0 and (hi & (hi + 1)) == 0:
            bits = [z3.Bool(f'draw{n}.{i}') for i in range(hi.bit_length())]
            v = SymInt(bits=bits)
        elif isinstance(lo, int) and isinstance(hi, int) and lo == hi:
            self.draws.append(('i', z3.IntVal(lo)))
            self.draw_log.append(('i', lo, hi, lo))
            self.draw_meta.append(('i', z3.IntVal(lo), lo, hi, 0))
            return lo
        else:
            x = z3.Int(f'draw{n}')
            self.eng.add(x >= (lo.ie() if is_sym(lo) else lo))
            self.eng.add(x <= (hi.ie() if is_sym(hi) else hi))
            v = SymInt(x)
        if self._near is not None and isinstance(lo, int) and isinstance(hi, int) and hi - lo > 7:
            if self._near == 'ends':
                keep = {lo, lo + 1, hi - 1, hi}
            else:
                keep = {lo, lo + 1, (lo + hi) // 2, hi - 1, hi} | {c + e for c in self._near for e in (-1, 0, 1)}
            self.eng.add(z3.Or([v.ie() == c for c in sorted(keep) if lo <= c <= hi]))
        for d in distinct:
            self.eng.add(bool_e(v != d))
        self.draws.append(('i', v.ie()))
        self.draw_log.append(('i', lo, hi, v))
        self.draw_meta.append(('i', v.ie(), lo, hi, len(distinct)))
        return v

    def draw_u(self):
        if not self._quiet:
            self._sym_tick()
        if self._quiet:
            return self.quiet_u()
        self._count()
        n = len(self.draws)
        x = z3.Real(f'draw{n}')
        self.eng.add(x >= 0)
        self.eng.add(x < 1)
        self.draws.append(('u', x))
        self.draw_log.append(('u', 0, 1, SymFloat(x)))
        self.draw_meta.append(('u', x, 0, 1, 0))
        return SymFloat(x)

    def draw_any(self):
        if not self._quiet:
            self._sym_tick()
        if self._quiet:
            return self.quiet_u()
        self._count()
        x = z3.Real(f'draw{len(self.draws)}')
        self.draws.append(('g', x))
        return SymFloat(x)

    def pick(self, seq, i):
        """element i of seq; stays symbolic where the elements are numbers"""
        if not is_sym(i):
            return seq[i]
        if isinstance(seq, range):
            return seq.start + seq.step * i
        n = len(seq)
        if type(seq) in (list, tuple) and n and all(type(x) is int or isinstance(x, SymInt) for x in seq):
            if all(type(x) is int for x in seq) and n > 1 and all(
                    seq[j + 1] - seq[j] == seq[1] - seq[0] for j in range(n - 1)):
                return seq[0] + (seq[1] - seq[0]) * i
            ie = i.ie()
            ex = [x.ie() if is_sym(x) else z3.IntVal(x) for x in seq]
            r = ex[-1]
            for j in range(n - 2, -1, -1):
                r = z3.If(ie == j, ex[j], r)
            return mkint(r)
        if n and all((isinstance(x, str) and x in ('0', '1')) or (isinstance(x, SymStr) and len(x) == 1)
                     for x in seq):
            bs = [z3.BoolVal(x == '1') if isinstance(x, str) else x.ch[0] for x in seq]
            ie = i.ie()
            r = bs[-1]
            for j in range(n - 2, -1, -1):
                r = z3.If(ie == j, bs[j], r)
            r = z3.simplify(r)
            return SymStr.make(['1' if z3.is_true(r) else '0' if z3.is_false(r) else r])
        return seq[i.__index__()]

    # -- models -------------------------------------------------------------------------------
    def script(self, m):
        inputs = {}
        for n, (k, v) in self.vars.items():
            if k == 's':
                inputs[n] = ''.join('1' if z3.is_true(m.eval(b, model_completion=True)) else '0' for b in v)
            else:
                inputs[n] = zval(m, v)
        return inputs, [(k, zval(m, e)) for k, e in self.draws]

    def obs_under(self, m):
        def ev(v):
            if isinstance(v, SymBool):
                return bool(z3.is_true(m.eval(v.e, model_completion=True)))
            if isinstance(v, SymInt):
                return zval(m, v.ie())
            if isinstance(v, SymFloat):
                x = zval(m, v.e)
                return {'r': str(x)}
            if isinstance(v, SymStr):
                return ''.join(c if isinstance(c, str) else ('1' if z3.is_true(m.eval(c, model_completion=True))
                                                             else '0') for c in v.ch)
            if isinstance(v, dict):
                return {str(k): ev(x) for k, x in v.items()}
            if isinstance(v, (list, tuple)):
                return [ev(x) for x in v]
            from .ctx import plain
            return plain(v)
        return {k: ev(v) for k, v in self.obs.items()}
