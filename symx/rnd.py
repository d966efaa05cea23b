"""Model of the `random` module: every draw is an arbitrary value allowed by the documented contract.

One implementation for both modes; the context supplies the primitive draws:
  ctx.draw_int(lo, hi)  -> symbolic integer in [lo, hi]      (replay: next scripted value)
  ctx.draw_u()          -> symbolic real in [0, 1)           (replay: next scripted value)
In seeded mode the stream is a deterministic function of the seed and of the sequence of calls made so far.
"""
import random as _real
import types


class Node:
    __slots__ = ('kids',)

    def __init__(self):
        self.kids = []


class Stream:
    def __init__(self, model):
        self.m = model
        self.node = None
        self.pending = None             # seed given before the explored path starts (at import)

    # -- stream bookkeeping -----------------------------------------------------------------
    def seed(self, a=None, version=2):
        m = self.m
        if not m.live():
            self.pending = a
            return
        m.ctx.note_seed(a)
        if not m.seeded:
            return
        if a is None:
            self.node = Node()
            return
        self.node = self._root(a)

    def _root(self, a):
        m = self.m
        for s, n in m.roots:
            if m.ctx.truth(m.ctx.eq(s, a)):
                return n
        n = Node()
        m.roots.append((a, n))
        return n

    def getstate(self):
        return ('state', self.node)

    def setstate(self, st):
        self.node = st[1]

    def _draw(self, key, make):
        m = self.m
        if not m.seeded:
            return make()
        if self.node is None:
            self.node = Node() if self.pending is None else self._root(self.pending)
        for k, v, nxt in self.node.kids:
            if m.ctx.same(k, key):
                self.node = nxt
                return v
        v = make()
        nxt = Node()
        self.node.kids.append((key, v, nxt))
        self.node = nxt
        return v

    # -- API ----------------------------------------------------------------------------------
    def randint(self, a, b):
        c = self.m.ctx
        if c.truth(b < a):
            raise ValueError(f"empty range for randrange()")
        return self._draw(('i', a, b), lambda: c.draw_int(a, b))

    def randrange(self, start, stop=None, step=1):
        if stop is None:
            start, stop = 0, start
        start, stop, step = start.__index__(), stop.__index__(), step.__index__()
        n = len(range(start, stop, step))
        if n == 0:
            raise ValueError(f"empty range in randrange({start}, {stop}, {step})")
        i = self._idx(n)
        return start + step * i

    def _idx(self, n):
        return self._draw(('i', 0, n - 1), lambda: self.m.ctx.draw_int(0, n - 1))

    def random(self):
        return self._draw(('u',), self.m.ctx.draw_u)

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def getrandbits(self, k):
        return self._idx(1 << k)

    def choice(self, seq):
        n = len(seq)
        if n == 0:
            raise IndexError('Cannot choose from an empty sequence')
        if n == 1:
            self._idx(1)
            return seq[0]
        return self.m.ctx.pick(seq, self._idx(n))

    def sample(self, population, k, *, counts=None):
        c = self.m.ctx
        if isinstance(population, (set, frozenset, dict)) or not hasattr(population, '__getitem__'):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        n = len(population)
        k = k.__index__()
        if not 0 <= k <= n:
            raise ValueError("Sample larger than population or is negative")

        def mk():
            ids = []
            for _ in range(k):
                ids.append(c.draw_int(0, n - 1, distinct=list(ids)))
            return ids
        ids = self._draw(('s', n, k), mk)
        return [c.pick(population, i) for i in ids]

    def shuffle(self, x):
        c = self.m.ctx
        for i in reversed(range(1, len(x))):
            j = self._idx(i + 1).__index__()
            x[i], x[j] = x[j], x[i]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        c = self.m.ctx
        n = len(population)
        out = []
        if cum_weights is None and weights is not None:
            cum_weights = []
            t = 0
            for w in weights:
                t = t + w
                cum_weights.append(t)
        for _ in range(k):
            if cum_weights is None:
                out.append(c.pick(population, self._idx(n)))
            else:
                u = self.random() * (cum_weights[-1] + 0.0)
                for i in range(n - 1):
                    if c.truth(u < cum_weights[i]):
                        out.append(population[i])
                        break
                else:
                    out.append(population[n - 1])
        return out

    def betavariate(self, *a):
        return self.random()

    def triangular(self, low=0.0, high=1.0, mode=None):
        return low + (high - low) * self.random()

    def _cont(self, *a, **k):
        return self._draw(('g',), self.m.ctx.draw_any)

    gauss = normalvariate = expovariate = lognormvariate = _cont


class FakeRandom(types.ModuleType):
    """stand-in for the random module"""

    def __init__(self, ctx):
        super().__init__('random')
        self.ctx = ctx
        self.seeded = False
        self.roots = []
        self.early = []                 # generators made at import
        self.top = Stream(self)
        for n in API:
            setattr(self, n, getattr(self.top, n))
        model = self

        class Random(Stream):
            def __init__(self, x=None):
                super().__init__(model)
                if not model.live():
                    model.early.append(self)
                self.seed(x)
        self.Random = Random

        class SystemRandom(Stream):
            def __init__(self, x=None):
                super().__init__(model)
        self.SystemRandom = SystemRandom

    def reset(self):
        self.seeded = False
        self.roots = []
        self.top.node = None
        for s in self.early:
            s.node = None

    def live(self):
        return getattr(self.ctx, 'mode', None) is not None

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(_real, n)


API = ['seed', 'getstate', 'setstate', 'randint', 'randrange', 'random', 'uniform', 'getrandbits', 'choice', 'sample',
       'shuffle', 'choices', 'betavariate', 'triangular', 'gauss', 'normalvariate', 'expovariate', 'lognormvariate']
