"""Loads python source (the real /repo package and the harness modules) for symbolic execution.

Each module is parsed from the current file, and its AST is rewritten so that calls, ==/!=, in/not in and
f-strings go through the interception functions below (only needed because C builtins cannot see through
proxies: int(), bin(), ''.join(), round(), set() ...).  Control flow is untouched: it is the code's own.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import math
import os
import sys
import functools
import types
from fractions import Fraction
import z3
from . import core
from .core import (Sym, SymBool, SymInt, SymFloat, SymStr, SymSet, is_sym, mkint, mkfloat, mkbool, neg, deep_eq,
                   contains_sym, int_to_binstr, real_e, as_int)

PYTYPE = {SymBool: bool, SymInt: int, SymFloat: float, SymStr: str, SymSet: set}


# ---------------------------------------------------------------------------------------------
class T(ast.NodeTransformer):
    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'exec', 'eval'):
            return node
        return ast.copy_location(ast.Call(func=self._name('__sc__'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1:
            return node
        op = node.ops[0]
        fn = {ast.Eq: '__seq__', ast.NotEq: '__sne__', ast.In: '__sin__', ast.NotIn: '__snin__'}.get(type(op))
        if fn is None:
            return node
        return ast.copy_location(ast.Call(func=self._name(fn), args=[node.left, node.comparators[0]], keywords=[]),
                                 node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(ast.Call(func=self._name('__snot__'), args=[node.operand], keywords=[]), node)
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([val, ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(func=self._name('__sf__'), args=parts, keywords=[]), node)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=self._name('__sset__'), args=[
            ast.ListComp(elt=node.elt, generators=node.generators)], keywords=[]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(ast.Call(func=self._name('__sset__'), args=[
            ast.List(elts=node.elts, ctx=ast.Load())], keywords=[]), node)


# ---------------------------------------------------------------------------------------------
H = {}


def handler(*fs):
    def deco(g):
        for f in fs:
            H[f] = g
        return g
    return deco


@handler(isinstance)
def h_isinstance(o, c):
    t = type(o)
    if t in PYTYPE:
        return issubclass(PYTYPE[t], c) if not isinstance(c, tuple) else any(h_isinstance(o, x) for x in c)
    return isinstance(o, c)


@handler(type)
def h_type(*a, **k):
    if len(a) == 1 and type(a[0]) in PYTYPE:
        return PYTYPE[type(a[0])]
    return type(*a, **k)


@handler(int)
def h_int(*a, **k):
    if not a or not is_sym(a[0]):
        return int(*a, **k)
    x = a[0]
    base = a[1] if len(a) > 1 else k.get('base', 10)
    if isinstance(x, SymStr):
        return x.to_int(base)
    if isinstance(x, SymBool):
        return x.toint()
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymFloat):
        return x.trunc()
    return int(*a, **k)


@handler(float)
def h_float(*a):
    if a and isinstance(a[0], (SymInt, SymBool)):
        return SymFloat(real_e(a[0]))
    if a and isinstance(a[0], SymFloat):
        return a[0]
    return float(*a)


@handler(bool)
def h_bool(*a):
    if a and is_sym(a[0]):
        if isinstance(a[0], SymBool):
            return a[0]
        if isinstance(a[0], SymInt):
            return mkbool(z3.simplify(a[0].nz()))
        if isinstance(a[0], SymFloat):
            return mkbool(z3.simplify(a[0].e != 0))
    return bool(*a)


@handler(str)
def h_str(*a, **k):
    if a and is_sym(a[0]):
        x = a[0]
        if isinstance(x, SymStr):
            return x
        if isinstance(x, (SymInt, SymBool)):
            x = as_int(x)
            b = x.bits
            if b is None:
                if not core.ENG.branch(z3.And(x.ie() >= 0, x.ie() <= 1)):
                    return str(core.ENG.concretize_int(x.ie()))
                return SymStr([x.ie() == 1])
            if len(b) == 1:
                return SymStr([b[0]])
            return str(core.ENG.concretize_int(x.ie()))
        return '<sym>'
    return str(*a, **k)


@handler(repr)
def h_repr(x):
    return repr(x)


@handler(abs)
def h_abs(x):
    return abs(as_int(x)) if is_sym(x) else abs(x)


@handler(round)
def h_round(x, *a, **k):
    if isinstance(x, (SymInt, SymFloat, SymBool)):
        n = a[0] if a else k.get('ndigits')
        return as_int(x).__round__(n) if n is not None else as_int(x).__round__()
    return round(x, *a, **k)


@handler(bin)
def h_bin(x):
    if is_sym(x):
        s = int_to_binstr(as_int(x))
        if isinstance(s, str):
            return ('-0b' + s[1:]) if s[0] == '-' else '0b' + s
        if s.ch[0] == '-':
            return SymStr(['-', '0', 'b'] + s.ch[1:])
        return SymStr(['0', 'b'] + s.ch)
    return bin(x)


def sym_format(x, spec):
    if isinstance(x, SymStr):
        return x if not spec else format(x.concrete(), spec)
    if isinstance(x, (SymInt, SymBool)) and isinstance(spec, str) and spec.endswith('b'):
        s = int_to_binstr(as_int(x))
        w = spec[:-1]
        pre = ''
        if w.startswith('#'):
            pre, w = '0b', w[1:]
        zero = w.startswith('0')
        n = int(w) if w else 0
        s = s if isinstance(s, SymStr) else SymStr(list(s))
        body = list(pre) + s.ch
        if zero:
            body = list(pre) + ['0'] * (n - len(pre) - len(s.ch)) + s.ch
        else:
            body = [' '] * (n - len(body)) + body
        return SymStr.make(body)
    if isinstance(x, (SymInt, SymBool)) and spec in ('d', ''):
        return h_str(x)
    return '<sym>'


@handler(format)
def h_format(x, spec=''):
    if is_sym(x):
        return sym_format(x, spec)
    return format(x, spec)


def __sf__(*parts):
    out = []
    sym = False
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if isinstance(spec, SymStr):
            spec = spec.concrete()
        if is_sym(v):
            s = sym_format(v, spec) if conv == -1 else '<sym>'
        else:
            if conv == 114:
                v = repr(v)
            elif conv == 115:
                v = str(v)
            elif conv == 97:
                v = ascii(v)
            s = format(v, spec)
        if isinstance(s, SymStr):
            sym = True
        out.append(s)
    if not sym:
        return ''.join(out)
    ch = []
    for s in out:
        ch += s.ch if isinstance(s, SymStr) else list(s)
    return SymStr.make(ch)


@handler(len)
def h_len(x):
    return len(x)


def _isnum(x):
    return isinstance(x, (bool, int, float, Fraction, SymInt, SymFloat, SymBool))


def _minmax(is_max):
    name = max if is_max else min

    def f(*a, **k):
        if len(a) == 1:
            items = list(a[0])
        else:
            items = list(a)
        if not items:
            return name(*a, **k)
        key = k.get('key')
        if key is not None:
            keys = [__sc__(key, x) for x in items]
        else:
            keys = items
        if not any(contains_sym(x, 2) for x in keys):
            # concrete keys
            bi = 0
            for i in range(1, len(items)):
                if (keys[i] > keys[bi]) if is_max else (keys[i] < keys[bi]):
                    bi = i
            return items[bi]
        if key is None and all(_isnum(x) and not core._special(x) for x in items):
            allint = all(isinstance(x, (bool, int, SymInt, SymBool)) for x in items)
            if allint:
                es = [as_int(x).ie() if is_sym(x) else z3.IntVal(int(x)) for x in items]
            else:
                es = [real_e(x) for x in items]
            r = es[0]
            for e in es[1:]:
                r = z3.If(e > r, e, r) if is_max else z3.If(e < r, e, r)
            return mkint(r) if allint else mkfloat(r)
        bi = 0
        for i in range(1, len(items)):
            if (keys[i] > keys[bi]) if is_max else (keys[i] < keys[bi]):
                bi = i
        return items[bi]
    return f


H[max] = _minmax(True)
H[min] = _minmax(False)


@handler(sum)
def h_sum(it, start=0, **k):
    start = k.get('start', start)
    r = start
    for x in it:
        r = r + x
    return r


@handler(set, frozenset)
def h_set(it=()):
    items = list(it)
    if any(contains_sym(x) for x in items):
        return SymSet(items)
    return set(items)


def __sset__(items):
    return h_set(items)


@handler(print)
def h_print(*a, **k):
    return None


@handler(map)
def h_map(f, *its):
    return (__sc__(f, *xs) for xs in zip(*its))


@handler(filter)
def h_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if __sc__(f, x))


@handler(pow)
def h_pow(a, b, *m):
    return a ** b if not m else pow(a, b, *m)


@handler(divmod)
def h_divmod(a, b):
    return (a // b, a % b)


@handler(any)
def h_any(it):
    for x in it:
        if x:
            return True
    return False


@handler(all)
def h_all(it):
    for x in it:
        if not x:
            return False
    return True


@handler(sorted)
def h_sorted(it, key=None, reverse=False):
    l = list(it)
    l.sort(key=(lambda x: __sc__(key, x)) if key is not None else None, reverse=reverse)
    return l


@handler(ord)
def h_ord(c):
    if isinstance(c, SymStr) and len(c.ch) == 1:
        return 48 + SymInt(bits=[c.ch[0]])
    return ord(c)


@handler(callable)
def h_callable(x):
    return callable(x)


STRM = {'join': lambda s, it: SymStr(list(s)).join(it) if True else None}


def str_method(s, name, args, kw):
    """method of a concrete str called with symbolic arguments"""
    if name == 'join':
        items = list(args[0])
        if not any(isinstance(x, SymStr) for x in items):
            return s.join(items)
        return SymStr(list(s)).join(items)
    if name == 'format':
        parts = []
        return s.format(*[a if not is_sym(a) else '<sym>' for a in args])
    if name == '__add__':
        return SymStr(list(s)) + args[0]
    return getattr(s, name)(*[a.concrete() if isinstance(a, SymStr) else a for a in args], **kw)


BM = types.BuiltinMethodType


def __sc__(f, /, *a, **k):
    try:
        h = H.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if type(f) is BM and type(f.__self__) is str:
        # iterables (generators) must be looked into for join
        if f.__name__ == 'join':
            return str_method(f.__self__, 'join', a, k)
        if any(is_sym(x) for x in a):
            return str_method(f.__self__, f.__name__, a, k)
    elif type(f) is BM and f.__name__ == 'sort' and 'key' in k and k['key'] is not None:
        key = k['key']
        return f(**dict(k, key=lambda x: __sc__(key, x)))
    elif type(f) is types.MethodDescriptorType and a:
        if is_sym(a[0]):
            return getattr(a[0], f.__name__)(*a[1:], **k)
        if type(a[0]) is str:
            return __sc__(getattr(a[0], f.__name__), *a[1:], **k)
    return f(*a, **k)


_plain_eq = (bool, int, float, str, type(None))


def __seq__(a, b):
    if isinstance(a, (list, tuple, dict)) and isinstance(b, (list, tuple, dict)):
        if contains_sym(a) or contains_sym(b):
            return deep_eq(a, b)
    return a == b


def __sne__(a, b):
    if isinstance(a, (list, tuple, dict)) and isinstance(b, (list, tuple, dict)):
        if contains_sym(a) or contains_sym(b):
            return neg(deep_eq(a, b)) if is_sym(deep_eq(a, b)) else not deep_eq(a, b)
    return a != b


def __sin__(x, c):
    if isinstance(c, range) and isinstance(x, (SymInt, SymBool)):
        x = as_int(x)
        if len(c) == 0:
            return False
        lo, hi, st = min(c[0], c[-1]), max(c[0], c[-1]), abs(c.step)
        e = [x.ie() >= lo, x.ie() <= hi]
        if st != 1:
            e.append((x.ie() - lo) % st == 0)
        return mkbool(z3.simplify(z3.And(e)))
    if isinstance(c, (list, tuple)) and (contains_sym(x) or contains_sym(c)):
        es = []
        for y in c:
            r = deep_eq(x, y)
            if isinstance(r, SymBool):
                es.append(r.e)
            elif r:
                return True
        return mkbool(z3.simplify(z3.Or(es))) if es else False
    if isinstance(c, (set, frozenset)) and contains_sym(x):
        return __sin__(x, list(c))
    if type(c).__name__ == 'dict_keys' and contains_sym(x):
        return __sin__(x, list(c))
    if isinstance(c, str) and isinstance(x, SymStr):
        if len(x) == 1:
            return __sin__(x, list(c))
        return x.concrete() in c
    return x in c


def __snin__(x, c):
    r = __sin__(x, c)
    return neg(r) if is_sym(r) else not r


def __snot__(x):
    if isinstance(x, SymBool):
        return neg(x)
    return not x


# ---------------------------------------------------------------------------------------------
class FakeMath(types.ModuleType):
    def __getattr__(self, n):
        return getattr(math, n)


fmath = FakeMath('math')


def _m(name):
    def deco(g):
        real = getattr(math, name)

        def f(*a, **k):
            if any(contains_sym(x, 1) for x in a):
                return g(*a, **k)
            return real(*a, **k)
        setattr(fmath, name, f)
        return g
    return deco


_m('floor')(lambda x: as_int(x).__floor__())
_m('ceil')(lambda x: as_int(x).__ceil__())
_m('trunc')(lambda x: h_int(x))
_m('fabs')(lambda x: h_float(abs(as_int(x))))
_m('sqrt')(lambda x: core.sym_sqrt(h_float(x)))
_m('fsum')(lambda xs: h_float(h_sum(xs)))
_m('pow')(lambda a, b: h_float(a) ** b if is_sym(a) else a ** b)
_m('isnan')(lambda x: False)
_m('isinf')(lambda x: False)
_m('isfinite')(lambda x: True)


@_m('prod')
def _prod(xs, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


@_m('isclose')
def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
    d = abs(a - b)
    return (d <= rel_tol * H[max](abs(a), abs(b))) | (d <= abs_tol)


CACHES = []


def _lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _lru_cache()(maxsize)

    def deco(fn):
        store = {}
        CACHES.append(store)

        def call(*a, **k):
            key = (a, tuple(sorted(k.items()))) if not typed else (a, tuple(sorted(k.items())), tuple(map(type, a)))
            if key in store:
                return store[key]
            v = fn(*a, **k)
            store[key] = v
            return v
        functools.update_wrapper(call, fn)
        call.cache_clear = store.clear
        call.cache_info = lambda: (0, 0, maxsize, len(store))
        return call
    return deco


ffunctools = types.ModuleType('functools')
ffunctools.__dict__.update({k: getattr(functools, k) for k in functools.__all__ if hasattr(functools, k)})
ffunctools.lru_cache = _lru_cache
ffunctools.cache = lambda fn: _lru_cache(None)(fn)
FAKES = {'math': fmath, 'functools': ffunctools}
_real_import = builtins.__import__


def _imp(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0 and name in FAKES:
        return FAKES[name]
    return _real_import(name, globals, locals, fromlist, level)


NS = {'__sc__': __sc__, '__seq__': __seq__, '__sne__': __sne__, '__sin__': __sin__, '__snin__': __snin__,
      '__sf__': __sf__, '__sset__': __sset__, '__snot__': __snot__}
BI = dict(vars(builtins))
BI['__import__'] = _imp
BI.update(NS)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(T().visit(tree))
        code = compile(tree, self.path, 'exec')
        module.__dict__['__builtins__'] = BI
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, roots):
        self.roots = roots            # {top-level package: dir containing it}

    def find_spec(self, name, path, target=None):
        top = name.split('.')[0]
        if top not in self.roots:
            return None
        base = os.path.join(self.roots[top], *name.split('.'))
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            spec = importlib.util.spec_from_file_location(name, p, loader=Loader(p), submodule_search_locations=[base])
            return spec
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=Loader(base + '.py'))
        return None


def install(roots, fakes):
    FAKES.update(fakes)
    sys.meta_path.insert(0, Finder(roots))


# ---------------------------------------------------------------------------------------------
_SNAP = None


def _mutable(v):
    return isinstance(v, (list, dict, set, bytearray))


def snapshot(prefix='baumeva'):
    """remember module/class level mutable state of the code under test"""
    import copy
    snap = []
    for v in CACHES:
        snap.append(('mut', None, None, v, copy.deepcopy(v)))
    for n, m in list(sys.modules.items()):
        if n != prefix and not n.startswith(prefix + '.'):
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, type) and str(getattr(v, '__module__', '')).startswith(prefix):
                for a, w in list(vars(v).items()):
                    if a.startswith('__') and a not in ('__init__',):
                        continue
                    if _mutable(w):
                        snap.append(('attr', v, a, w, copy.deepcopy(w)))
                    elif not isinstance(w, (staticmethod, classmethod, property)) or True:
                        snap.append(('cattr', v, a, w, None))
                    fn = w.__func__ if isinstance(w, (staticmethod, classmethod)) else w
                    if isinstance(fn, types.FunctionType) and fn.__defaults__:
                        for d in fn.__defaults__:
                            if _mutable(d):
                                snap.append(('mut', None, None, d, copy.deepcopy(d)))
                snap.append(('keys', v, None, set(vars(v)), None))
            elif _mutable(v):
                snap.append(('mut', None, None, v, copy.deepcopy(v)))
                snap.append(('cattr', m, k, v, None))
            elif isinstance(v, types.FunctionType) and str(v.__module__).startswith(prefix):
                for d in v.__defaults__ or ():
                    if _mutable(d):
                        snap.append(('mut', None, None, d, copy.deepcopy(d)))
            elif str(type(v).__module__).startswith(prefix):
                snap.append(('inst', v, None, dict(vars(v)), None))
            elif isinstance(v, (int, float, str, type(None), bool)):
                snap.append(('cattr', m, k, v, None))
    return snap


def _fill(obj, saved):
    import copy
    if isinstance(obj, list):
        obj[:] = copy.deepcopy(saved)
    else:
        obj.clear()
        obj.update(copy.deepcopy(saved))


def restore(snap):
    for kind, o, a, v, saved in snap:
        if kind == 'attr':
            if vars(o).get(a) is not v:
                setattr(o, a, v)
            if v != saved or contains_sym(v):
                _fill(v, saved)
        elif kind == 'cattr':
            if vars(o).get(a) is not v:
                setattr(o, a, v)
        elif kind == 'mut':
            if contains_sym(v) or v != saved:
                _fill(v, saved)
        elif kind == 'inst':
            if vars(o) != v:
                vars(o).clear()
                vars(o).update(v)
        elif kind == 'keys':
            for extra in set(vars(o)) - v:
                try:
                    delattr(o, extra)
                except Exception:
                    pass
