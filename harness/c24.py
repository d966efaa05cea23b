"""C24: the caller's inputs are untouched and runs are independent."""
from copy import deepcopy
from .common import *

FUNCTIONS = ['BinaryGA/CategoricalGA/CombinatoryGA/VEGA/FFGA.__init__/optimize', 'CollectorGA', 'all population classes set_params/fill',
             'BaseFitness.__init__/set_opt_value', 'MultiFitness.set_opt_value', 'crossovers, mutations, NewGeneration (whole runs)']
BOUNDS = ('every ready-made algorithm with every option set, 2..4 generations of 4 individuals, arbitrary objective values, start '
          'individuals symbolic, fixed draw streams; targets the run can reach exactly, runs with and without start individuals; two or three optimisations in a row on one object or on two objects sharing '
          'inputs; a run that ends with an error at any evaluation before another one; an objective that at any evaluation runs another '
          'algorithm; runs of 24 individuals or 32 generations (and of sizes around constants new in the source) with a fixed objective up to a symbolic offset')
ASSUMPTIONS = ['the objective does not itself modify its arguments']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


ALGOS = ('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA')


def inputs(ctx, algo, cond, k=2, tag=''):
    """fresh mutable inputs for one algorithm"""
    multi = algo in ('VEGA', 'FFGA')
    if algo == 'CategoricalGA':
        gens = [[0, 1, 2], [5, 6, 7], (1, 3, 1)]
        start = [[ctx.int(f'{tag}a{i}', 0, 2), ctx.int(f'{tag}b{i}', 5, 7), ctx.int(f'{tag}c{i}', 1, 3)] for i in range(k)]
    elif algo == 'CombinatoryGA':
        gens = [1, 4, 4]
        start = [[1, 2, 3, 4], [4, 2, 1, 3], [2, 3, 4, 1]][:k]
    else:
        gens = [[0, 7, 1], [-1, 1, 0.5]]
        start = [[ctx.int(f'{tag}a{i}', 0, 7), ctx.choose(f'{tag}b{i}', [-1, 0.4, 1])] for i in range(k)]
    conds = None
    if cond == 'one':
        conds = ['optimize', '<='] if not multi else ['optimize', '<=', 'optimize']
    elif cond == 'two':
        conds = ['<=', 'optimize', '!='] if not multi else ['!=', 'optimize', '<=', 'optimize']
    elif cond == 'three':
        conds = ['<=', 'optimize', '<=', '!='] if not multi else ['optimize', '<=', 'optimize', 'optimize']
    return gens, start, conds


def freeze(x):
    return deepcopy(x)


def build(algo, gens, start, conds, data, f, seed_kw=None, n=4, ngen=3, target=None, penalty=None, mode='best', **kw):
    import baumeva
    if algo != 'FFGA':
        kw.setdefault('tournament_size', 2)
    return getattr(baumeva, algo)(num_generations=ngen, num_individ=n, gens=gens, obj_function=f, obj_value=target,
                                  input_data=data, penalty=penalty, conditions=conds, input_population=start, is_print=False,
                                  transfer_parents=mode, **kw)


def pen(name):
    if name is None:
        return None
    if name == 'Static':
        iv = {i: [(0, 1000)] for i in range(3)}
        co = {i: [1.0] for i in range(3)}
        return _g('StaticPenalty')(iv, co, iv, co)
    return _g(name + 'Penalty')()


def objective(ctx, algo, conds, data, name='f', hi=None):
    multi = algo in ('VEGA', 'FFGA')
    nv = len(conds) if conds else (2 if multi else None)
    if hi is None:
        fn = ctx.func(name, lambda nm: ctx.int(nm, -2, 3), nv)
    else:
        # small value set, the components after the first fixed: the whole space is explored
        fn = ctx.func(name, lambda nm: ctx.int(nm, 0, hi) if nm.count('.') == 1 or nm.endswith('.0') else 1, nv)
    if data is None:
        return fn, fn
    return fn, (lambda dd, x: fn(x))


def plain_objective(ctx, algo, conds, data, name='c'):
    """fixed up to a symbolic offset, for runs of many individuals or generations"""
    k = len(conds) if conds else (2 if algo in ('VEGA', 'FFGA') else 0)
    c = ctx.real(name, -2, 2) if not conds else 0

    def fn(x):
        fn.calls.append(tuple(x))
        s = 0
        for i, v in enumerate(x):
            s = s + (i + 1) * (v - 2) * (v - 2)
        return s + c if not k else tuple(s + c if j % 2 == 0 else 11 - 2 * x[0] for j in range(k))
    fn.calls = []
    return (fn, fn) if data is None else (fn, lambda dd, x: fn(x))


DATA = {'none': None, 'dict': {'k': [1, 2], 's': 'x'}, 'list': [[1, 2], [3]]}


def untouched(ctx, algo, seed, cond=None, data='none', penalty=None, mode='best', runs=2, lvl='strong', cp=0.95, small=False):
    """nothing the caller handed over has changed after any number of runs"""
    gens, start, conds = inputs(ctx, algo, cond, k=1 if small else 2)
    if small:
        start[0] = {'CategoricalGA': [2, 5, 1], 'CombinatoryGA': [3, 1, 4, 2]}.get(algo, [5, 0.4])
    dd = deepcopy(DATA[data])
    keep = freeze([gens, start, conds, dd])
    raw, f = objective(ctx, algo, conds, dd, hi=1 if small else None)
    p = pen(penalty)
    keep_iv = freeze([p.equality_intervals, p.equality_r_coef, p.inequality_intervals, p.inequality_r_coef]) if penalty == 'Static' else None
    a = build(algo, gens, start, conds, dd, f, penalty=p, mode=mode, mutation_lvl=lvl, children_percent=cp, **(dict(n=3, ngen=2) if small else {}))
    for r in range(runs):
        ctx.stream(seed + r)
        a.optimize()
        ctx.quiet(False)
        ctx.check(eq([gens, start, conds, dd], keep), 'gene declarations, start population, conditions and input data are untouched')
        ctx.check(And(type(gens) is list, type(start) is list), 'inputs keep their type')
        if keep_iv:
            ctx.check([p.equality_intervals, p.equality_r_coef, p.inequality_intervals, p.inequality_r_coef] == keep_iv,
                      'penalty tables are untouched')


def trace(f):
    """calls so far, as values"""
    return [list(c) for c in f.calls]


def result(d, multi):
    b = d.best_solution
    if multi:
        return [[list(x['genotype']), list(x['phenotype']), list(x['obj_score'])] for x in b['pareto_set']] + [b['idx_generation']]
    return [list(b['genotype']), b['obj_score'], b['score'], b['idx_generation'], list(d.historical_best),
            list(d.historical_worst), d.idx_generation, d.num_generation_no_improve]


def again(ctx, algo, seed, cond=None, penalty=None, mode='best', data='none', between=None, small=False, target=None, bare=False, shape=None):
    """the second optimisation with the same draws does what the first did: it starts from scratch"""
    multi = algo in ('VEGA', 'FFGA')
    gens, start, conds = inputs(ctx, algo, cond, k=1 if small else 2)
    if small:
        start[0] = {'CategoricalGA': [2, 5, 1], 'CombinatoryGA': [3, 1, 4, 2]}.get(algo, [5, 0.4])
    dd = deepcopy(DATA[data])
    raw, f = objective(ctx, algo, conds, dd, hi=1 if small else None) if not shape else plain_objective(ctx, algo, conds, dd)
    if bare:
        start = None
    a = build(algo, gens, start, conds, dd, f, penalty=pen(penalty), mode=mode, mutation_lvl='strong', target=target,
              **(dict(n=3, ngen=2) if small else dict(n=shape[0], ngen=shape[1], early_stop=None) if shape else {}))
    ctx.stream(seed)
    d1 = a.optimize()
    ctx.quiet(False)
    t1 = trace(raw)
    r1 = freeze(result(d1, multi))
    p1 = freeze([[list(x['genotype']), x['score'], x['obj_score']] for x in d1.population])
    if between is not None:
        # another algorithm object, with other arguments, runs in between
        g2, s2, c2 = inputs(ctx, between, None, k=1, tag='z')
        m2 = between in ('VEGA', 'FFGA')
        ctx.stream(99)
        build(between, g2, s2, c2, None, (lambda x: (1, 2)) if m2 else (lambda x: 1), ngen=2, mutation_lvl='weak',
              **({} if between == 'FFGA' else dict(tournament_size=3))).optimize()
        ctx.quiet(False)
    ctx.stream(seed)
    d2 = a.optimize()
    ctx.quiet(False)
    t2 = trace(raw)[len(t1):]
    ctx.check(d1 is not d2, 'each run returns its own result')
    ctx.check(eq(t2, t1), 'a second run evaluates the same individuals given the same draws')
    ctx.check(eq(result(d2, multi), r1), 'a second run gives the same result given the same draws')
    ctx.check(eq(result(d1, multi), r1), 'the result of the earlier run is not affected')
    ctx.check(eq([[list(x['genotype']), x['score'], x['obj_score']] for x in d1.population], p1),
              'the population of the earlier run is not affected')
    ctx.observe('t', t1[:6])


def shared(ctx, algo, seed, other, mode='best'):
    """two objects built from the same inputs"""
    multi = algo in ('VEGA', 'FFGA')
    gens, start, conds = inputs(ctx, algo, 'one')
    raw, f = objective(ctx, algo, conds, None)
    a = build(algo, gens, start, conds, None, f, penalty=pen('Dynamic'), mode=mode, mutation_lvl='strong')
    b = build(algo, gens, start, conds, None, f, penalty=pen('Dynamic'), mode=mode, mutation_lvl='strong')
    ctx.stream(seed)
    da = a.optimize()
    ctx.quiet(False)
    ra = freeze(result(da, multi))
    n1 = len(raw.calls)
    ctx.stream(seed)
    db = b.optimize()
    ctx.quiet(False)
    ctx.check(eq(trace(raw)[n1:], trace(raw)[:n1]), 'a second object with the same inputs does the same')
    ctx.check(eq(result(db, multi), ra), 'a second object with the same inputs gives the same result')
    ctx.check(eq(result(da, multi), ra), 'the result of the first object is not affected')


VARIANTS = {'BinaryGA': {'step': dict(gens=[[0, 7, 3], [-1, 1, 0.5]]), 'range': dict(gens=[[0, 3, 1], [-1, 1, 0.5]]),
                         'low': dict(gens=[[4, 7, 1], [-1, 1, 0.5]]), 'more': dict(gens=[[0, 7, 1], [-1, 1, 0.5], [0, 1, 1]]),
                         'gray': dict(is_gray=True), 'order': dict(gens=[[-1, 1, 0.5], [0, 7, 1]])},
            'CategoricalGA': {'values': dict(gens=[[0, 1, 2], [7, 8, 9], (1, 3, 1)]), 'step': dict(gens=[[0, 1, 2], [5, 6, 7], (1, 3, 2)]),
                              'short': dict(gens=[[0, 1], [5, 6, 7], (1, 3, 1)]), 'swap': dict(gens=[[5, 6, 7], [0, 1, 2], (1, 3, 1)]),
                              'more': dict(gens=[[0, 1, 2], [5, 6, 7], (1, 3, 1), [3, 4]])},
            'CombinatoryGA': {'shift': dict(gens=[2, 5, 4]), 'wide': dict(gens=[1, 6, 4]), 'more': dict(gens=[1, 6, 6]), 'less': dict(gens=[1, 4, 3])}}
COMMON = {'size': dict(n=5), 'level': dict(mutation_lvl=0.0), 'name': dict(mutation_lvl='weak'), 'mode': dict(mode='random'),
          'target': dict(target=1), 'children': dict(children_percent=0.4), 'length': dict(ngen=4), 'start': dict(start=True),
          'data': dict(data=[1]), 'stop': dict(early_stop=0), 'cond': dict(cond='one'), 'cond2': dict(cond='two'), 'tour': dict(tournament_size=3)}


def isolated(ctx, algo, seed, change, swap=False):
    """a run does the same whether or not a similar run (one argument different) was made before it in the process"""
    multi = algo in ('VEGA', 'FFGA')
    base = dict(gens=inputs(ctx, algo, None, k=0)[0], n=4, ngen=2, mutation_lvl=0.5, mode='best', target=None, start=False, data=None,
                cond=None)
    vs = dict(VARIANTS['BinaryGA' if multi else algo], **COMMON)
    other = dict(base, **vs[change])
    if swap:
        base, other = other, base

    def go(opt, f, name):
        o = dict(opt)
        gens, cond, start = deepcopy(o.pop('gens')), o.pop('cond'), o.pop('start')
        conds = inputs(ctx, algo, cond, k=0)[2]
        st = [[g[0] for g in gens]] if start and algo != 'CombinatoryGA' else [list(range(gens[0], gens[0] + gens[2]))] if start else None
        tg = o.pop('target')
        if algo == 'FFGA':
            tg = None
            o.pop('tournament_size', None)
        elif multi and tg is not None:
            tg = [tg, tg]
        dd = o.pop('data')
        mk = {'one': 'Dynamic', 'two': 'Dynamic', None: None}[cond]
        raw, call = f(conds, dd)
        d = build(algo, gens, st, conds, dd, call, penalty=pen(mk), target=tg, **o).optimize()
        return raw, d

    raw = [None]

    def mine(conds, dd):
        if raw[0] is None:
            raw[0] = objective(ctx, algo, conds, dd, hi=1)
        return raw[0]

    def plain(conds, dd):
        k = len(conds) if conds else (2 if multi else 0)
        fn = (lambda x: tuple((sum(x) + j) % 3 for j in range(k))) if k else (lambda x: sum(x) % 3)
        return None, ((lambda a, x: fn(x)) if dd is not None else fn)
    ctx.forget()
    ctx.stream(seed)
    r, d1 = go(base, mine, 'f')
    ctx.quiet(False)
    t1, r1 = trace(r), freeze(result(d1, multi))
    ctx.forget()
    ctx.stream(77)
    go(other, plain, 'g')
    ctx.quiet(False)
    ctx.stream(seed)
    r, d2 = go(base, mine, 'f')
    ctx.quiet(False)
    ctx.check(eq(trace(r)[len(t1):], t1), 'a run evaluates the same individuals whatever ran before it')
    ctx.check(eq(result(d2, multi), r1), 'a run gives the same result whatever ran before it')
    ctx.observe('t', t1[:6])


class Broken(Exception):
    pass


def broken(ctx, algo, seed, cond=None, mode='best', times=1, data='none'):
    """a run whose objective raises an error at any point leaves nothing behind: the next one starts from scratch"""
    multi = algo in ('VEGA', 'FFGA')
    gens, start, conds = inputs(ctx, algo, cond, k=1, tag='s')
    start[0] = {'CategoricalGA': [2, 5, 1], 'CombinatoryGA': [3, 1, 4, 2]}.get(algo, [5, 0.4])
    dd = deepcopy(DATA[data])
    keep = freeze([gens, start, conds, dd])
    raw, f = plain_objective(ctx, algo, conds, dd)
    kw = dict(mode=mode, mutation_lvl='strong', n=4, ngen=3)
    ctx.stream(seed)
    d1 = build(algo, gens, start, conds, dd, f, penalty=pen('Dynamic' if cond else None), **kw).optimize()
    ctx.quiet(False)
    t1, r1 = trace(raw), freeze(result(d1, multi))
    left = [None]

    def g(*a):
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                raise Broken('no value')
        return f(*a)
    b = build(algo, gens, start, conds, dd, g, penalty=pen('Dynamic' if cond else None), **kw)
    for k in range(times):
        left[0] = ctx.choose(f'at{k}', list(range(len(t1))))
        ctx.stream(seed + 5 + k)
        try:
            b.optimize()
        except Broken:
            ctx.cover('broken')
        ctx.quiet(False)
        ctx.check(eq([gens, start, conds, dd], keep), 'gene declarations, start population, conditions and input data are untouched')
    left[0] = None
    n0 = len(raw.calls)
    ctx.stream(seed)
    d2 = b.optimize()
    ctx.quiet(False)
    ctx.check(eq(trace(raw)[n0:], t1), 'a run after one that ended with an error evaluates the same individuals as any other')
    ctx.check(eq(result(d2, multi), r1), 'a run after one that ended with an error gives the same result as any other')
    ctx.check(eq(result(d1, multi), r1), 'the result of the earlier run is not affected')
    ctx.must_cover('broken')


def nested(ctx, algo, inner, seed, mode='best', cond=None):
    """an objective that itself runs another optimisation (of an object of its own) does not disturb the outer run"""
    multi = algo in ('VEGA', 'FFGA')
    gens, start, conds = inputs(ctx, algo, cond, k=0)
    raw, f = plain_objective(ctx, algo, conds, None)
    kw = dict(mode=mode, mutation_lvl='strong', n=4, ngen=3)
    ctx.stream(seed)
    d1 = build(algo, gens, None, conds, None, f, penalty=pen('Dynamic' if cond else None), **kw).optimize()
    ctx.quiet(False)
    t1, r1 = trace(raw), freeze(result(d1, multi))
    at = ctx.choose('at', list(range(len(t1))))
    g2, s2, c2 = inputs(ctx, inner, None, k=0)
    f2 = plain_objective(ctx, inner, None, None, 'c2')[1]
    seen = [0]

    def g(x):
        if seen[0] == at:
            hold = ctx._lcg
            ctx._lcg = 4242
            build(inner, g2, None, None, None, f2, n=5, ngen=2, mutation_lvl=0.5, mode='random').optimize()
            ctx._lcg = hold
        seen[0] += 1
        return f(x)
    n0 = len(raw.calls)
    ctx.stream(seed)
    d2 = build(algo, gens, None, conds, None, g, penalty=pen('Dynamic' if cond else None), **kw).optimize()
    ctx.quiet(False)
    ctx.check(eq(trace(raw)[n0:], t1), 'a run evaluates the same individuals when its objective runs another algorithm')
    ctx.check(eq(result(d2, multi), r1), 'a run gives the same result when its objective runs another algorithm')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=8 if not big else 120)
    S = dict(time=30 if not big else 200)
    for algo in ALGOS:
        for c, p in ((None, None), ('one', 'Dynamic'), ('two', 'Static')):
            for mode in ('best', 'random'):
                J.append(dict(func='untouched', cfg=dict(algo=algo, seed=1, cond=c, penalty=p, mode=mode, small=True), cost=4, limits=S))
                J.append(dict(func='again', cfg=dict(algo=algo, seed=1, cond=c, penalty=p, mode=mode, small=True), cost=4, limits=S))
        multi = algo in ('VEGA', 'FFGA')
        J.append(dict(func='untouched', cfg=dict(algo=algo, seed=1), cost=5, limits=T))
        J.append(dict(func='untouched', cfg=dict(algo=algo, seed=2, cond='one', penalty='Dynamic', data='dict'), cost=5, limits=T))
        J.append(dict(func='untouched', cfg=dict(algo=algo, seed=3, cond='two', penalty='Static', mode='random', data='list'), cost=5, limits=T))
        J.append(dict(func='untouched', cfg=dict(algo=algo, seed=4, cond='two', penalty='Dynamic', mode='random', lvl=1.0, cp=0.5), cost=5, limits=T))
        if not multi:
            J.append(dict(func='untouched', cfg=dict(algo=algo, seed=5, cond='one', penalty='Adaptive', lvl=1.0), cost=5, limits=T))
            J.append(dict(func='again', cfg=dict(algo=algo, seed=5, cond='one', penalty='Adaptive'), cost=6, limits=T))
        J.append(dict(func='again', cfg=dict(algo=algo, seed=1), cost=6, limits=T))
        J.append(dict(func='again', cfg=dict(algo=algo, seed=2, cond='two', penalty='Dynamic', mode='random'), cost=6, limits=T))
        J.append(dict(func='again', cfg=dict(algo=algo, seed=3, cond='one', penalty='Static', data='dict', between='BinaryGA'), cost=6, limits=T))
        J.append(dict(func='again', cfg=dict(algo=algo, seed=4, between='VEGA' if algo != 'VEGA' else 'CategoricalGA'), cost=6, limits=T))
        for tg in (None, 0, 1):
            t = [tg, tg] if multi and tg is not None else tg
            for bare in (True, False) if tg is not None else (True,):
                J.append(dict(func='again', cfg=dict(algo=algo, seed=6, target=None if algo == 'FFGA' else t, bare=bare, small=True), cost=4, limits=S))
        for ch in dict(VARIANTS['BinaryGA' if multi else algo], **COMMON):
            for swap in (False, True):
                J.append(dict(func='isolated', cfg=dict(algo=algo, seed=2, change=ch, swap=swap), cost=4, limits=dict(time=2 if not big else 60, validate=3)))
        J.append(dict(func='shared', cfg=dict(algo=algo, seed=2, other=None), cost=6, limits=T))
        # a run that ends with an error; an objective that runs an algorithm itself
        B = dict(time=8 if not big else 100, validate=3)
        for i, (c, m, k) in enumerate(((None, 'best', 1), ('two', 'random', 1), (None, 'random', 2))):
            J.append(dict(func='broken', cfg=dict(algo=algo, seed=3 + i, cond=c, mode=m, times=k, data=('none', 'dict', 'none')[i]), cost=5, limits=B))
        for i, inner in enumerate(ALGOS):
            if big or inner == algo or i == (ALGOS.index(algo) + 1) % 5:
                J.append(dict(func='nested', cfg=dict(algo=algo, inner=inner, seed=2 + i, mode=('best', 'random')[i % 2], cond=(None, 'two')[i % 2]), cost=5, limits=B))
        # many individuals, many generations
        L = dict(time=6 if not big else 60, validate=2)
        for i, n in enumerate(sizes([24], 5, 130 if not multi else 40)):
            c, p = ((None, None), ('two', 'Dynamic'))[i % 2]
            J.append(dict(func='again', cfg=dict(algo=algo, seed=7, shape=[n, 3], bare=True, cond=c, penalty=p), cost=6, limits=L))
        for i, g in enumerate(sizes([30], 5, 120 if not multi else 30)):
            c, p = (('two', 'Dynamic'), (None, None))[i % 2]
            J.append(dict(func='again', cfg=dict(algo=algo, seed=8, shape=[6, g + 2], bare=True, cond=c, penalty=p, mode='random'), cost=6, limits=L))
    return J
