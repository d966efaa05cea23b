"""C11: each new individual is evaluated exactly once, on its own decoded values."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['BaseFitness.execute/calc_obj_func/set_obj_score', 'HyperbolaFitness', 'VEGAHyperbolaFitness', 'FFGAFitness',
             'MultiFitness.execute/assign_ranks/inferior', 'BinaryPopulation.get_phenotype/swap', 'all facades (call counts)']
BOUNDS = ('populations of 3 with every mix of evaluated/unevaluated members, symbolic scores and objective values, '
          'chromosomes symbolic (2..4 bits); input data None and 8 kinds of values; chromosomes of 12..48 genes that differ in one; runs of 3 generations of 4, long runs')
ASSUMPTIONS = ['the objective is a deterministic function that does not modify its arguments']
DATA = {'none': None, 'zero': 0, 'list': [], 'dict': {}, 'str': '', 'false': False, 'real': {'k': [1, 2]}, 'num': 3.5, 'tuple': (1,)}


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


class Obj:
    """objective with call log; data first when data is given"""

    def __init__(self, ctx, data, nvals=None, lo=0, hi=10):
        self.f = ctx.func('f', lambda n: ctx.real(n, lo, hi), nvals)
        self.data = data
        self.calls = []
        self.bad = []

    def __call__(self, *a):
        want = 1 if self.data is None else 2
        if len(a) != want or (want == 2 and not (type(a[0]) is type(self.data) and a[0] == self.data)):
            self.bad.append(len(a))
        x = a[-1]
        self.calls.append(list(x))
        return self.f.value(list(x))


def population(ctx, kind, n):
    if kind in ('bin', 'gray'):
        gens = ((0, 3, 1),)
        ctx.quiet()
        pop = bin_pop(n, gens, kind == 'gray')
        ctx.quiet(False)
        for k, ind in enumerate(pop):
            ind['genotype'] = ctx.bits(f'b{k}', 2)
            ind['phenotype'] = None
    elif kind == 'cat':
        pop = cat_pop([[ctx.choose(f'c{k}', ['a', 'b']), k % 2] for k in range(n)], gens=(['a', 'b'], [0, 1]))
    else:
        pop = cat_pop([[(k + i) % 3 for i in range(3)] for k in range(n)], gens=(0, 2, 3), cls=_g('OrderCatPopulation'))
    return pop


def decoded(ctx, kind, genotype, gens=((0, 3, 1),)):
    if kind in ('bin', 'gray'):
        return own_decode(genotype, gens, kind == 'gray')
    return list(genotype)


def single(ctx, kind, data, done, cond=None, target=None):
    """done[i]: individual i already has a score"""
    data = DATA[data]
    n = len(done)
    pop = population(ctx, kind, n)
    gs = [list(x['genotype']) for x in pop]
    old = {}
    for i, ind in enumerate(pop):
        if done[i]:
            ind['score'] = ctx.real(f's{i}', -5, 5)
            ind['obj_score'] = 77.5 + i
            if kind in ('bin', 'gray'):
                ind['phenotype'] = [100.0 + i]
            old[i] = (ind['score'], ind['obj_score'], ind.get('phenotype'))
    o = Obj(ctx, data, len(cond) if cond else None)
    d = ga(pop)
    kw = dict(penalty=_g('DynamicPenalty')(), conditions=list(cond)) if cond else {}
    fit = _g('HyperbolaFitness')(obj_function=o, input_data=data, obj_value=target, **kw)
    fit.execute(d)
    ctx.check(not o.bad, 'input data is the first argument exactly when given')
    todo = [i for i in range(n) if not done[i]]
    ctx.check(len(o.calls) == len(todo), 'one call per unevaluated individual')
    want = [decoded(ctx, kind, gs[i]) for i in todo]
    for w in want:
        ctx.check(eq(count([eq(c, w) for c in o.calls]), count([eq(v, w) for v in want])),
                  'each unevaluated individual is evaluated on its own decoded values')
    inds = list(pop)
    for i in range(n):
        ind = inds[i]
        ctx.check(eq(list(ind['genotype']), gs[i]), 'evaluation leaves the genotype alone')
        if done[i]:
            ctx.check(And(eq(ind['score'], old[i][0]), eq(ind['obj_score'], old[i][1]), eq(ind.get('phenotype'), old[i][2])
                          if old[i][2] is not None else True), 'an evaluated individual keeps its record')
        else:
            w = want[todo.index(i)]
            if kind in ('bin', 'gray'):
                ctx.check(eq(ind['phenotype'], w), 'evaluation leaves the decoded value in place')
            alts = [And(eq(a, w), eq(ind['obj_score'], v[cond.index('optimize')] if cond else v)) for a, v in o.f.table]
            ctx.check(Or(alts), "the returned value is stored as that individual's objective score")
            ctx.check(ind['score'] is not None, 'the individual gets a score')
    ncalls = len(o.calls)
    fit.execute(d)
    ctx.check(len(o.calls) == ncalls, 'a second pass evaluates nobody again')
    ctx.observe('scores', [x['obj_score'] for x in pop])


def multi(ctx, fitn, data, kind, cond=None, nobj=2):
    data = DATA[data]
    n = 2
    pop = population(ctx, kind, n)
    gs = [list(x['genotype']) for x in pop]
    want = [decoded(ctx, kind, g) for g in gs]
    o = Obj(ctx, data, len(cond) if cond else nobj)
    d = ga(pop, multi=True)
    kw = dict(penalty=_g('DynamicPenalty')(), conditions=list(cond)) if cond else {}
    _g(fitn)(obj_function=o, input_data=data, **kw).execute(d)
    ctx.check(not o.bad, 'input data is the first argument exactly when given')
    for c in o.calls:
        ctx.check(Or([eq(c, w) for w in want]), 'the objective only sees decoded values of the population')
    for i, ind in enumerate(pop):
        ctx.check(And(eq(list(ind['genotype']), gs[i]), eq(ind['phenotype'], want[i])), 'evaluation leaves the individual alone')
        pos = [k for k, c in enumerate(cond or ['optimize'] * nobj) if c == 'optimize']
        ctx.check(Or([And(eq(a, want[i]), len(ind['obj_score']) == len(pos), eq(list(ind['obj_score']), [v[k] for k in pos]))
                      for a, v in o.f.table]), "the returned values are stored as that individual's objective scores, in order")
    ctx.observe('scores', [x['obj_score'] for x in pop])


def kin(ctx, kind, L):
    """new individuals that differ from an evaluated one (or from each other) in one gene at any place, or not at all"""
    where = ctx.choose('where', [None] + sorted({0, 1, L // 3, L // 2, L - 2, L - 1}))
    other = ctx.choose('other', [0, L - 1])

    def alter(g, k):
        g = list(g)
        if k is not None:
            g[k] = ({'0': '1', '1': '0'} if kind in ('bin', 'gray') else {'a': 'b', 'b': 'a'})[g[k]]
        return g
    if kind in ('bin', 'gray'):
        gens = ((0, 2 ** (L - L // 3) - 1, 1), (0, 2 ** (L // 3) - 1, 1))
        ctx.quiet()
        pop = bin_pop(4, gens, kind == 'gray')
        ctx.quiet(False)
        first = list('0110100110010110' * (L // 16 + 1))[:L]
    else:
        gens = tuple(['a', 'b'] for _ in range(L))
        first = list('abbabaabbaababba' * (L // 16 + 1))[:L]
        pop = cat_pop([first] * 4, gens=gens)
    gs = [first, alter(first, where), alter(first, other), alter(first, where)]
    for ind, g in zip(pop, gs):
        ind['genotype'] = list(g)
        if kind in ('bin', 'gray'):
            ind['phenotype'] = None
    want = [decoded(ctx, kind, g, gens) for g in gs]
    pop[0]['score'], pop[0]['obj_score'] = 5, -5
    if kind in ('bin', 'gray'):
        pop[0]['phenotype'] = list(want[0])
    calls = []

    def f(x):
        calls.append(list(x))
        return len(calls)
    d = ga(pop)
    inds = list(pop)
    _g('HyperbolaFitness')(obj_function=f).execute(d)
    ctx.check(sorted(calls) == sorted(want[1:]), 'each unevaluated individual is evaluated on its own decoded values')
    for ind, g, w in zip(inds, gs, want):
        ctx.check(list(ind['genotype']) == g, 'evaluation leaves the genotype alone')
        if ind is not inds[0]:
            ctx.check(calls[ind['obj_score'] - 1] == w, "the returned value is stored as that individual's objective score")
            if kind in ('bin', 'gray'):
                ctx.check(list(ind['phenotype']) == w, 'evaluation leaves the decoded value in place')


def memo(ctx, algo, cond, seed, form='list'):
    """an objective that hands out the same object again for the same values"""
    import baumeva
    multi = algo in ('VEGA', 'FFGA')
    c = ctx.real('c', -1, 1)
    k = len(cond) if cond else 2 if multi else 1
    store, mine = {}, []

    def true(x):
        s = sum((i + 1) * v for i, v in enumerate(x))
        return [s + c, s - 3, 5 - s, s % 2][:k]

    def f(x):
        key = tuple(x)
        if key not in store:
            v = true(x)
            store[key] = v[0] if k == 1 else v if form == 'list' else tuple(v)
        return store[key]
    gens = {'CategoricalGA': ([0, 1], (1, 3, 1)), 'CombinatoryGA': (0, 3, 3)}.get(algo, ((0, 3, 1), (0, 1, 1)))
    kw = {} if algo == 'FFGA' else dict(tournament_size=2)
    ctx.stream(seed)
    d = getattr(baumeva, algo)(num_generations=4, num_individ=5, gens=gens, obj_function=f, conditions=cond, is_print=False, mutation_lvl=0.3,
                               penalty=_g('DynamicPenalty')(alpha=1, betta=1) if cond else None, **kw).optimize()
    ctx.quiet(False)
    for x, v in store.items():
        want = true(x)
        ctx.check(eq(list(v) if k > 1 else v, want if k > 1 else want[0]), 'what the objective returned is left as it was')
    opt = [i for i, q in enumerate(cond) if q == 'optimize'] if cond else list(range(k))
    for ind in d.population:
        x = ind['phenotype'] if 'phenotype' in ind else ind['genotype']
        w = [true(x)[i] for i in opt]
        ctx.check(eq(list(ind['obj_score']) if multi else ind['obj_score'], w if multi else w[0]), 'the returned value is stored as objective score')


def run(ctx, algo, seed, data, n=4, gens=3, pct=0.8):
    """number of calls in whole runs: start population plus children, nobody twice"""
    import baumeva
    data = DATA[data]
    gn = {'BinaryGA': ((0, 3, 1),), 'CategoricalGA': (['a', 'b'], (0, 1, 1)), 'CombinatoryGA': (1, 3, 3),
          'VEGA': ((0, 3, 1),), 'FFGA': ((0, 3, 1),)}[algo]
    mo = algo in ('VEGA', 'FFGA')
    o = Obj(ctx, data, 2 if mo else None)
    ctx.stream(seed)
    d = getattr(baumeva, algo)(num_generations=gens, num_individ=n, gens=gn, obj_function=o, input_data=data,
                               tournament_size=2, mutation_lvl=0.5, children_percent=pct, is_print=False).optimize()
    ctx.check(not o.bad, 'input data is the first argument exactly when given')
    if not mo:
        ctx.check(len(o.calls) == n + (gens - 1) * int(pct * n), 'one call per start individual and per child')
    for ind in d.population:
        w = ind['phenotype'] if 'phenotype' in ind else ind['genotype']
        ctx.check(Or([And(eq(a, list(w)), eq(ind['obj_score'], list(v) if mo else v)) for a, v in o.f.table]),
                  'every individual carries the objective value of its own decoded values')
        if 'phenotype' in ind:
            ctx.check(eq(decoded(ctx, 'bin', ind['genotype']), w), 'decoded value belongs to the genotype')
    ctx.observe('n', len(o.calls))


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=12 if not big else 200)
    kinds = ('bin', 'gray', 'fine', 'fine_gray', 'cat', 'order')
    for kind in kinds:
        for done in ([0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [0, 1, 1], [1, 1, 1]):
            J.append(dict(func='single', cfg=dict(kind=kind, data='none', done=done), cost=3, limits=T))
        for cond in (['optimize', '<='], ['!=', 'optimize', '<=']):
            J.append(dict(func='single', cfg=dict(kind=kind, data='none', done=[1, 0, 0], cond=cond), cost=5, limits=T))
        J.append(dict(func='single', cfg=dict(kind=kind, data='real', done=[1, 0], target=3), cost=2, limits=T))
    for i, dt in enumerate(DATA):
        J.append(dict(func='single', cfg=dict(kind=kinds[i % 4], data=dt, done=[0, 1]), cost=2, limits=T))
        J.append(dict(func='multi', cfg=dict(fitn=('VEGAHyperbolaFitness', 'FFGAFitness')[i % 2], data=dt, kind='bin'), limits=T))
    for f in ('VEGAHyperbolaFitness', 'FFGAFitness'):
        for k in ('bin', 'gray'):
            for cond in (None, ['optimize', '<=', 'optimize'], ['<=', 'optimize', '!=', 'optimize'], ['optimize', '<=', 'optimize', 'optimize'],
                         ['!=', 'optimize', 'optimize', '<=', 'optimize', 'optimize']):
                J.append(dict(func='multi', cfg=dict(fitn=f, data='none', kind=k, cond=cond), cost=4, limits=T))
        J.append(dict(func='multi', cfg=dict(fitn=f, data='dict', kind='bin', nobj=3), cost=4, limits=T))
    s = 0
    for algo in ('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA'):
        for dt in ('none', 'list', 'real') if not big else DATA:
            s += 1
            J.append(dict(func='run', cfg=dict(algo=algo, seed=s, data=dt), cost=7,
                          limits=dict(time=4 if not big else 60, validate=5)))
    for i, algo in enumerate(('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA')):
        for cond in ((None, ['optimize', '<='], ['<=', 'optimize', '!=']) if i < 3 else (None, ['optimize', '<=', 'optimize'], ['optimize', 'optimize', '<=', '!='])):
            for form in ('list', 'tuple') if cond or i > 2 else ('list',):
                J.append(dict(func='memo', cfg=dict(algo=algo, cond=cond, seed=i + 2, form=form), cost=3, limits=dict(time=5 if not big else 60, validate=3)))
    for kind in ('bin', 'gray', 'cat'):
        for L in sizes([12, 18, 30], 6, 48):
            J.append(dict(func='kin', cfg=dict(kind=kind, L=L), cost=3, limits=dict(time=20)))
    J += soak_jobs('C11', tier, kinds=('bin', 'gray', 'cat', 'ord', 'ffga', 'vega'), tables=('inf', 'mixed', 'low', 'large', 'tiny', 'bool'))
    return J
