"""C26: ready-made algorithms apply exactly the options they are given."""
from copy import deepcopy
from .common import *
from .c24 import inputs, pen, objective, plain_objective, DATA, _g

FUNCTIONS = ['BinaryGA/CategoricalGA/CombinatoryGA/VEGA/FFGA.__init__/optimize', 'CollectorGA.__init__/set_population/optimize',
             'every component used by them, in whole runs']
BOUNDS = ('each ready-made algorithm against the same run assembled from the public components by the harness (and by CollectorGA), '
          'given the same draws: fixed draw streams with an arbitrary objective (values -2..3), or symbolic draws with a fixed '
          'objective; every constructor option at two or more values, options varied singly and together; 2..4 generations of 4..6 '
          'individuals (14 generations for the defaults); runs of 24 individuals or 32 generations (and of sizes around constants new in the source) with a fixed objective up to a symbolic offset')
ASSUMPTIONS = ['the objective is deterministic']

ALGOS = ('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA')
PLAN = {'BinaryGA': ('HyperbolaFitness', 'TournamentSelection', 'OnePointCrossover', 'BinStringMutation', 'NewGeneration', 'GaData'),
        'CategoricalGA': ('HyperbolaFitness', 'TournamentSelection', 'UniformCrossover', 'CategoricalMutation', 'NewGeneration', 'GaData'),
        'CombinatoryGA': ('HyperbolaFitness', 'TournamentSelection', 'OrderCrossover', 'MovementMutation', 'NewGeneration', 'GaData'),
        'VEGA': ('VEGAHyperbolaFitness', 'VEGATournamentSelection', 'OnePointCrossover', 'BinStringMutation', 'NewGeneration',
                 'MultiGaData'),
        'FFGA': ('FFGAFitness', 'BalancedSelection', 'OnePointCrossover', 'BinStringMutation', 'MultiNewGeneration', 'MultiGaData')}
DEFAULTS = dict(obj_value=None, input_data=None, penalty=None, conditions=None, is_gray=False, children_percent=0.95, early_stop=10,
                input_population=None, tournament_size=3, mutation_lvl='normal', transfer_parents='best')


def parts(algo, o, f, nobj):
    fit, sel, cro, mut, new, sto = PLAN[algo]
    fit = _g(fit)(obj_function=f, obj_value=o['obj_value'], input_data=o['input_data'], penalty=o['penalty'],
                  conditions=o['conditions'])
    if algo == 'FFGA':
        sel = _g(sel)()
    elif algo == 'VEGA':
        sel = _g(sel)(num_objectives=nobj, tournament_size=o['tournament_size'])
    else:
        sel = _g(sel)(tournament_size=o['tournament_size'])
    pop = {'CategoricalGA': 'CatPopulation', 'CombinatoryGA': 'OrderCatPopulation'}.get(
        algo, 'BinaryGrayPopulation' if o['is_gray'] else 'BinaryPopulation')
    return fit, sel, _g(cro)(), _g(mut)(mutation_lvl=o['mutation_lvl']), _g(new)(transfer_parents=o['transfer_parents']), _g(pop), _g(sto)


def manual(algo, o, f, nobj, n, ngen, gens):
    """the documented run, written out"""
    fit, sel, cro, mut, new, pop, sto = parts(algo, o, f, nobj)
    es = ngen if o['early_stop'] is None else o['early_stop']
    d = sto(num_generations=ngen, children_percent=o['children_percent'], early_stop=es)
    p = pop()
    p.set_params(num_individ=n, gens=gens, input_population=o['input_population'])
    p.fill()
    d.population = p
    fit.execute(d)
    d.update()
    for t in range(1, ngen):
        for s in (sel, cro, mut, new, fit):
            s.execute(d)
        d.update()
        if d.num_generation_no_improve > es:
            break
    return d


def collector(algo, o, f, nobj, n, ngen, gens):
    import baumeva
    fit, sel, cro, mut, new, pop, sto = parts(algo, o, f, nobj)
    kw = {} if sto.__name__ == 'GaData' else dict(storage=sto)
    c = baumeva.CollectorGA(fitness=fit, selection=sel, crossover=cro, mutation=mut, new_generation=new, **kw)
    opt = dict(children_percent=o['children_percent'], early_stop=ngen if o['early_stop'] is None else o['early_stop'],
               input_population=o['input_population'])
    opt = {k: v for k, v in opt.items() if v != DEFAULTS[k]}
    c.set_population(population=pop, num_individ=n, num_generations=ngen, gens=gens, **opt)
    c.optimize()
    return c.ga_data


def facade(algo, o, f, n, ngen, gens, explicit, loud=False):
    import baumeva
    kw = {k: v for k, v in o.items() if not (v is None and DEFAULTS[k] is None) and
          (k in explicit or k in ('penalty', 'conditions', 'input_population', 'input_data'))}
    if algo in ('CategoricalGA', 'CombinatoryGA'):
        kw.pop('is_gray', None)
    return getattr(baumeva, algo)(num_generations=ngen, num_individ=n, gens=gens, obj_function=f, is_print=loud, **kw).optimize()


def result(d, multi):
    b = d.best_solution
    pop = [[list(x['genotype']), x['score']] for x in d.population]
    if multi:
        return [[[list(x['genotype']), list(x['phenotype']), list(x['obj_score'])] for x in b['pareto_set']], b['idx_generation'],
                d.idx_generation, pop]
    return [list(b['genotype']), list(b['phenotype']) if b.get('phenotype') is not None else None, b['feasible'], b['obj_score'], b['score'], b['idx_generation'], list(d.historical_best),
            list(d.historical_mediocre), list(d.historical_worst), d.idx_generation, d.num_generation_no_improve, pop]


def concrete(algo, conds):
    multi = algo in ('VEGA', 'FFGA')
    nv = len(conds) if conds else (2 if multi else 1)

    def f(x):
        s = 0
        for i, v in enumerate(x):
            s = s + (i + 1) * (v - 1) * (v - 1)
        return s if nv == 1 else tuple(s - 3 * j if j % 2 == 0 else 7 - s for j in range(nv))
    return f


def same_run(ctx, algo, opts, seed, cond=None, penalty=None, data='none', start=0, n=5, ngen=3, arms=('manual',), hi=None, sym=None,
             const=False, gens=None, symopt=(), fixed=False, loud=False, m=2):
    multi = algo in ('VEGA', 'FFGA')
    g0, st, conds = inputs(ctx, algo, cond, k=max(start, 0))
    if hi is not None and start:
        st = [{'CategoricalGA': [2, 5, 1], 'CombinatoryGA': [3, 1, 4, 2]}.get(algo, [5, 0.4])][:start]
    if gens:
        g0 = gens
    dd = deepcopy(DATA[data])
    o = dict(DEFAULTS, tournament_size=2 if n < 4 else 3)
    o.update(opts)
    for k in symopt:                          # the option at any value of its range
        o[k] = {'tournament_size': lambda: ctx.int('tournament_size', 2, n - 1),
                'children_percent': lambda: ctx.real('children_percent', 1 / n + 0.01, 1),
                'mutation_lvl': lambda: ctx.real('mutation_lvl', 0, 1),
                'early_stop': lambda: ctx.int('early_stop', 0, 12),
                'obj_value': lambda: ctx.int('obj_value', -40, 40),
                }[k]()
    if multi and o['obj_value'] is not None:
        o['obj_value'] = [o['obj_value'] + i for i in range(conds.count('optimize') if conds else m)]
    o['conditions'], o['input_data'] = conds, dd
    o['input_population'] = st if start else None
    log = []
    if m != 2:
        if fixed:
            base = lambda x: tuple((k + 1) * sum((i + 1) * (v - k) * (v - k) for i, v in enumerate(x)) for k in range(m))
        else:
            base = ctx.func('f', lambda nm: ctx.int(nm, -2, 3), m)
    elif sym or const or symopt or fixed:
        base = (plain_objective(ctx, algo, conds, None)[0] if fixed == 'offset' else concrete(algo, conds)) if not const else (lambda x: (1, 2) if multi else 1)
    else:
        base = objective(ctx, algo, conds, None, hi=hi)[0]

    def core(x):
        log.append(list(x))
        return base(x)
    f = core if dd is None else (lambda d_, x: core(x))
    nobj = conds.count('optimize') if conds else m
    explicit = set(opts) | set(symopt) | ({'tournament_size'} if n < 4 else set())
    if algo == 'FFGA':
        explicit.discard('tournament_size')
    from .c25 import get_generator

    def begin():
        if sym:
            get_generator().rnd_seed = 5
            ctx.random.top.seed(5)
            ctx.stream(seed, n=sym) if not started else None
            started.append(1)
        else:
            ctx.stream(seed)
        del log[:]

    def end():
        if not sym:
            ctx.quiet(False)
    started = []
    ctx.random.seeded = bool(sym)

    def options():
        return dict(o, penalty=pen(penalty))
    begin()
    d1 = facade(algo, options(), f, n, ngen, g0, explicit, loud)
    end()
    t1, r1 = [list(x) for x in log], deepcopy(result(d1, multi))
    for arm in arms:
        begin()
        d2 = (manual if arm == 'manual' else collector)(algo, options(), f, nobj, n, ngen, g0)
        end()
        t2 = [list(x) for x in log]
        extra = len(t1) - len(t2)
        ctx.check(extra == 0 or (algo == 'VEGA' and extra == 1), f'as many evaluations as the run assembled from components ({arm})')
        ctx.check(eq(t1[extra:], t2), f'the same individuals in the same order as the run assembled from components ({arm})')
        ctx.check(eq(result(d2, multi), r1), f'the same result as the run assembled from components ({arm})')
    ctx.observe('t', t1[:5])
    if sym:
        get_generator().rnd_seed = None


def printing(ctx, algo, seed, flag):
    """is_print decides whether the result is shown"""
    import builtins
    import baumeva
    multi = algo in ('VEGA', 'FFGA')
    g0, st, conds = inputs(ctx, algo, None, k=0)
    out = []
    cls = _g('MultiGaData' if multi else 'GaData')
    ctx.patch(cls, 'print_best_solution', lambda self: out.append(self))
    ctx.stream(seed)
    kw = {} if flag is None else dict(is_print=flag)
    d = getattr(baumeva, algo)(num_generations=2, num_individ=4, gens=g0, obj_function=concrete(algo, None), **kw).optimize()
    ctx.quiet(False)
    ctx.check(len(out) == (0 if flag is False else 1), 'the best solution is printed exactly when asked for')
    ctx.check(all(x is d for x in out), 'the printed result is the returned one')


def variants(algo):
    """(options, extra cfg)"""
    tourn = algo != 'FFGA'
    V = [({}, {})]
    if tourn:
        V += [(dict(tournament_size=2), {}), (dict(tournament_size=4), {})]
    V += [(dict(mutation_lvl=m), {}) for m in ('weak', 'strong', 0.0, 1.0, 0.4)]
    V += [(dict(transfer_parents=m), dict(n=6)) for m in ('best', 'random')]
    V += [(dict(children_percent=c), dict(n=6)) for c in (0.2, 0.5, 0.8)]
    V += [(dict(early_stop=e), dict(ngen=5, n=4)) for e in (0, 1, 2, None)]
    if algo in ('BinaryGA', 'VEGA', 'FFGA'):
        V += [(dict(is_gray=True), {}), (dict(is_gray=True, mutation_lvl='strong'), dict(start=2))]
    V += [(dict(obj_value=v), {}) for v in (0, 1, -2)]
    V += [({}, dict(start=2)), ({}, dict(start=1)), ({}, dict(data='dict')), ({}, dict(data='list', start=1))]
    V += [({}, dict(cond='one', penalty='Dynamic')),
          (dict(obj_value=1), dict(cond='two', penalty='Dynamic')), ({}, dict(cond='two', penalty='Static'))]
    V += [({}, dict(cond='three', penalty='Dynamic')), (dict(obj_value=1, transfer_parents='random'), dict(cond='three', penalty='Dynamic', n=7))]
    if algo not in ('VEGA', 'FFGA'):
        V += [({}, dict(cond='one', penalty='Adaptive'))]
    if algo in ('VEGA', 'FFGA'):
        V += [({}, dict(m=3, n=7)), (dict(obj_value=1), dict(m=3, n=6)), ({}, dict(m=4, n=9)), ({}, dict(m=1, n=5))]
    mix = dict(mutation_lvl=0.7, transfer_parents='random', children_percent=0.6, early_stop=1, obj_value=2)
    if tourn:
        mix['tournament_size'] = 2
    V += [(mix, dict(cond='two', penalty='Dynamic', data='dict', start=2, n=6, ngen=4))]
    return V


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=2 if not big else 60, validate=3)
    S = dict(time=12 if not big else 120)
    for algo in ALGOS:
        for i, (o, x) in enumerate(variants(algo)):
            for seed in ((1 + i, 20 + i) if not big else (1 + i, 20 + i, 40 + i, 60 + i)):
                J.append(dict(func='same_run', cfg=dict(algo=algo, opts=o, seed=seed, arms=('manual', 'collector'), **x), cost=2, limits=T))
            # two objective values only, small: exhausted
            y = dict(x)
            y.update(n=4 if o.get('tournament_size', 3) < 4 else 5, ngen=min(x.get('ngen', 2), 3), hi=1)
            y['start'] = min(y.get('start', 0), 1)
            J.append(dict(func='same_run', cfg=dict(algo=algo, opts=o, seed=3 + i, **y), cost=3, limits=S))
        # defaults, over more generations than the default early stop
        J.append(dict(func='same_run', cfg=dict(algo=algo, opts={}, seed=1, ngen=14, n=4, const=True, arms=('manual', 'collector')),
                      limits=T))
        # one option at any value, fixed draws and objective
        for k in ('tournament_size', 'children_percent', 'mutation_lvl', 'early_stop', 'obj_value'):
            if k == 'tournament_size' and algo == 'FFGA':
                continue
            ns = sizes([8, 14], 5, 60) if k in ('tournament_size', 'children_percent') else [8]
            for n in ns:
                J.append(dict(func='same_run', cfg=dict(algo=algo, opts={}, symopt=[k], seed=4, n=n, ngen=14 if k == 'early_stop' else 3,
                                                        const=k == 'early_stop'), cost=4, limits=dict(time=10 if not big else 120, validate=5)))
        # symbolic draws, fixed objective
        for k in (16, 20, 24, 28):
            for o in ({}, dict(mutation_lvl=0.5), dict(transfer_parents='random')):
                J.append(dict(func='same_run', cfg=dict(algo=algo, opts=o, seed=2, sym=k, n=3, ngen=2), cost=4,
                              limits=dict(time=8 if not big else 120, max_draws=24 if not big else 40)))
        J.append(dict(func='same_run', cfg=dict(algo=algo, opts={}, seed=5, n=6, ngen=3, fixed=True, loud=True), cost=2, limits=T))
        J.append(dict(func='same_run', cfg=dict(algo=algo, opts=dict(transfer_parents='random'), seed=6, n=5, ngen=3, cond='two', penalty='Dynamic', loud=True), cost=2, limits=T))
        # many individuals, many generations
        L = dict(time=6 if not big else 60, validate=2)
        multi = algo in ('VEGA', 'FFGA')
        for m in sizes([3, 5], 3, 9) if multi else []:
            J.append(dict(func='same_run', cfg=dict(algo=algo, opts={}, seed=9, n=3 * m, ngen=4, m=m, fixed=True, arms=('manual', 'collector')), cost=4, limits=L))
        for i, n in enumerate(sizes([24], 5, 130 if not multi else 40)):
            x = (dict(), dict(cond='two', penalty='Dynamic'))[i % 2]
            J.append(dict(func='same_run', cfg=dict(algo=algo, opts={}, seed=7, n=n, ngen=3, fixed='offset', arms=('manual', 'collector'), **x), cost=6, limits=L))
        for i, g in enumerate(sizes([30], 5, 120 if not multi else 30)):
            x = (dict(cond='two', penalty='Dynamic'), dict())[i % 2]
            J.append(dict(func='same_run', cfg=dict(algo=algo, opts=dict(early_stop=None, transfer_parents='random'), seed=8, n=6, ngen=g + 2,
                                                    fixed='offset', **x), cost=6, limits=L))
        for flag in (True, False, None):
            J.append(dict(func='printing', cfg=dict(algo=algo, seed=1, flag=flag), limits=T))
    return J
