"""C27: invalid configurations are rejected instead of producing wrong results."""
from .common import *

FUNCTIONS = ['BinStringMutation/CategoricalMutation/BaseCombinatoryMutation (level check)', 'TournamentSelection.check_tournament_size',
             'VEGATournamentSelection', 'BinaryPopulation/CatPopulation/OrderCatPopulation.set_params', 'BinaryPopulation.fill/'
             'float_individ_to_binary', 'NewGeneration/MultiNewGeneration.check_transfer_parent', 'BaseFitness.check_task/check_input',
             'MultiFitness.check_input', 'BasePenalty and its three subclasses', 'AdaptivePenalty.__init__', 'the ready-made algorithms']
BOUNDS = ('symbolic numeric options: mutation level any real in [-2,3], tournament size any integer -2..9 for populations of 3..7, '
          'adaptive bettas any reals in [-3,5], start genes any real within 5 of the range (1..3 genes), numbers of start individuals '
          '0..7 for populations of 2..5, numbers of returned values 1..5 against 2..4 conditions; a list of wrong names and types '
          'for the others')
ASSUMPTIONS = ['conditions are in force when a penalty is given (the documented way of conditional optimisation)',
               'a run of at least two generations']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def attempt(ctx, fn, *a, **k):
    """the error fn raises, or None; a run that never ends counts as accepted"""
    from symx.ctx import DrawBudget
    ctx.draw_cap = 400
    try:
        return ctx.raises(fn, *a, **k)
    except DrawBudget:
        return None
    finally:
        ctx.draw_cap = None


MUT = {'BinStringMutation': 'bin', 'CategoricalMutation': 'cat', 'SwapMutation': 'perm', 'InversionMutation': 'perm',
       'MovementMutation': 'perm', 'ShiftMutation': 'perm'}


def kids(ctx, kind):
    ctx.quiet()
    if kind == 'bin':
        pop = bin_pop(2, ((0, 3, 1),))
    elif kind == 'cat':
        pop = cat_pop([[0, 1], [1, 1]], gens=([0, 1], [0, 1]))
    else:
        pop = cat_pop([[1, 2, 3, 4], [2, 1, 4, 3]], gens=(1, 4, 4), cls=_g('OrderCatPopulation'))
    d = ga(pop)
    d.children = pop.get_empty_copy()
    c = pop.get_empty_individ()
    c['genotype'] = list(pop[0]['genotype'])
    d.children.append(c)
    ctx.quiet(False)
    return d


BAD = ['strength', 'Normal', '', 'none', None, [0.5], (0.1,), {'normal': 1}, float('nan'), float('inf'), -float('inf'), '0.5', 'STRONG', 0, 1, 2, True, False,
       'normal ']


def level(ctx, mut, what):
    """mutation level; what: 'real' or the index of a wrong value or a name"""
    d = kids(ctx, MUT[mut])
    if what == 'real':
        lvl = ctx.real('p', -2, 3)
    elif isinstance(what, int):
        lvl = BAD[what]
    else:
        lvl = what
    ctx.stream(1)

    def go():
        _g(mut)(mutation_lvl=lvl).execute(d)
    e = attempt(ctx, go)
    ctx.quiet(False)
    if what == 'real':
        ok = And(lvl >= 0, lvl <= 1)
        ctx.check(ok if e is None else Not(ok), 'a numeric level is accepted exactly within [0, 1]')
        ctx.must_cover('accepted', 'rejected')
        ctx.cover('accepted', e is None)
        ctx.cover('rejected', e is not None)
    elif isinstance(what, int):
        ctx.check(e is not None, 'a level that is no name and no float in [0, 1] is rejected')
    else:
        ctx.check(e is None, 'the three names and the limits are accepted')
    ctx.observe('raised', e is not None)


def scored_pop(ctx, n, multi=False):
    ctx.quiet()
    pop = cat_pop([[i, i] for i in range(n)], gens=(list(range(n)),) * 2)
    ctx.quiet(False)
    for i, ind in enumerate(pop):
        ind['score'] = [float(i), float(n - i)] if multi else float(i)
        ind['obj_score'] = ind['score']
    return ga(pop, multi=multi)


def tsize(ctx, n, vega):
    d = scored_pop(ctx, n, vega)
    k = ctx.int('k', -2, n + 2)
    ctx.stream(3)

    def go():
        s = _g('VEGATournamentSelection')(num_objectives=2, tournament_size=k) if vega else _g('TournamentSelection')(k)
        s.execute(d)
    e = attempt(ctx, go)
    ctx.quiet(False)
    ok = And(k >= 2, k < n)
    ctx.check(ok if e is None else Not(ok), 'a tournament size is accepted exactly from 2 to below the population size')
    ctx.must_cover('rejected', *(['accepted'] if n > 2 else []))
    ctx.cover('accepted', e is None)
    ctx.cover('rejected', e is not None)
    ctx.observe('raised', e is not None)


GENS = {'BinaryGA': ((0, 7, 1), (-1, 1, 0.5)), 'CategoricalGA': ([0, 1, 2], [5, 6, 7], (1, 3, 1)), 'CombinatoryGA': (1, 4, 4),
        'VEGA': ((0, 7, 1), (-1, 1, 0.5)), 'FFGA': ((0, 7, 1), (-1, 1, 0.5)), 'Gray': ((0, 7, 1), (-1, 1, 0.5))}
IND = {'BinaryGA': [3, 0.5], 'CategoricalGA': [1, 6, 2], 'CombinatoryGA': [2, 4, 1, 3], 'VEGA': [3, 0.5], 'FFGA': [3, 0.5], 'Gray': [3, 0.5]}
POP = {'BinaryGA': 'BinaryPopulation', 'CategoricalGA': 'CatPopulation', 'CombinatoryGA': 'OrderCatPopulation',
       'Gray': 'BinaryGrayPopulation'}


def run(algo, n=4, ngen=2, f=None, **kw):
    import baumeva
    multi = algo in ('VEGA', 'FFGA')
    if algo == 'Gray':
        kw['is_gray'] = True
    if algo != 'FFGA':
        kw.setdefault('tournament_size', 2)
    f = f or ((lambda x: (x[0], -x[0])) if multi else (lambda x: x[0]))
    return getattr(baumeva, 'BinaryGA' if algo == 'Gray' else algo)(
        num_generations=ngen, num_individ=n, gens=GENS[algo], obj_function=f, is_print=False, **kw).optimize()


def facade(ctx, algo, kw, ok, n=4, ret=None):
    """one option of a ready-made algorithm"""
    multi = algo in ('VEGA', 'FFGA')
    ctx.stream(1)
    kw = {k: (BAD[v[1]] if isinstance(v, (list, tuple)) and len(v) == 2 and v[0] == 'BAD' else v) for k, v in kw.items()}
    if isinstance(kw.get('penalty'), str):
        kw['penalty'] = penalty(kw['penalty'])
    f = None
    if ret is not None:
        f = (lambda x: tuple(range(ret))) if ret != 'scalar' else (lambda x: 1)
    e = attempt(ctx, run, algo, n=n, f=f, **kw)
    ctx.quiet(False)
    ctx.check((e is None) == ok, 'accepted' if ok else 'rejected')
    ctx.observe('raised', e is not None)


def facade_num(ctx, algo, opt, n):
    """symbolic numeric option of a ready-made algorithm"""
    ctx.stream(1)
    if opt == 'tournament_size':
        v = ctx.int('v', -2, n + 2)
        ok = And(v >= 2, v < n)
    else:
        v = ctx.real('v', -2, 3)
        ok = And(v >= 0, v <= 1)
    e = attempt(ctx, run, algo, n=n, **{opt: v})
    ctx.quiet(False)
    ctx.check(ok if e is None else Not(ok), f'{opt} is accepted exactly within its limits')
    ctx.must_cover('accepted', 'rejected')
    ctx.cover('accepted', e is None)
    ctx.cover('rejected', e is not None)
    ctx.observe('raised', e is not None)


def starts(ctx, algo, n, whole):
    """number of start individuals"""
    k = ctx.concrete(ctx.int('k', 0, n + 2))
    st = [list(IND[algo]) for _ in range(k)]
    ctx.stream(2)

    def go():
        if whole:
            run(algo, n=n, input_population=st, **({} if algo == 'FFGA' else dict(tournament_size=2)))
            return
        p = _g(POP[algo])()
        p.set_params(num_individ=n, gens=GENS[algo], input_population=st)
        p.fill()
    e = attempt(ctx, go)
    ctx.quiet(False)
    ctx.check(k > n if e is not None else k <= n, 'start individuals are accepted exactly up to the population size')
    ctx.must_cover('accepted', 'rejected')
    ctx.cover('accepted', e is None)
    ctx.cover('rejected', e is not None)
    ctx.observe('raised', e is not None)


RANGES = [((0, 7, 1),), ((-1, 1, 0.5), (2, 5, 1)), ((0, 1, 1), (-4, -1, 0.75), (3, 10, 1))]


def gene(ctx, gray, rng, pos, integer=False, at=0, of=1):
    """a start gene: accepted exactly inside the declared range"""
    gens = RANGES[rng]
    lo, hi, _ = gens[pos]
    v = ctx.int('v', lo - 5, hi + 5) if integer else ctx.real('v', lo - 5, hi + 5)
    ctx.rounding('exact')
    ind = [g[0] for g in gens]
    st = [list(ind) for _ in range(of)]
    st[at][pos] = v

    def go():
        p = _g('BinaryGrayPopulation' if gray else 'BinaryPopulation')()
        p.set_params(num_individ=of, gens=gens, input_population=st)
        p.fill()
    e = attempt(ctx, go)
    ok = And(v >= lo, v <= hi)
    ctx.check(ok if e is None else Not(ok), 'a start gene is accepted exactly inside its range')
    ctx.must_cover('accepted', 'rejected')
    ctx.cover('accepted', e is None)
    ctx.cover('rejected', e is not None)
    ctx.observe('raised', e is not None)


def length(ctx, gray, rng, at=0, of=1):
    """a start individual of the wrong length"""
    gens = RANGES[rng]
    k = ctx.concrete(ctx.int('k', 0, len(gens) + 2))
    st = [[g[0] for g in gens] for _ in range(of)]
    st[at] = [gens[i][1] if i < len(gens) else 0 for i in range(k)]
    ctx.stream(1)

    def go():
        p = _g('BinaryGrayPopulation' if gray else 'BinaryPopulation')()
        p.set_params(num_individ=of, gens=gens, input_population=st)
        p.fill()
    e = attempt(ctx, go)
    ctx.quiet(False)
    ctx.check((e is None) == (k == len(gens)), 'a start individual is accepted exactly with one value per gene')
    ctx.observe('raised', e is not None)


MODES = ['best', 'random', 'Best', '', 'worst', None, 'elite', 1, 'bestrandom', 'b']


def mode(ctx, cls, i):
    m = MODES[i]
    e = ctx.raises(lambda: _g(cls)(transfer_parents=m))
    ctx.check((e is None) == (m in ('best', 'random')), 'a transfer mode is accepted exactly when it is best or random')


def bettas(ctx, integer=False):
    mk = ctx.int if integer else ctx.real
    a, b = mk('a', -3, 5), mk('b', -3, 5)
    e = ctx.raises(lambda: _g('AdaptivePenalty')(betta_1=a, betta_2=b))
    ok = And(a > 1, b > 1, ne(a, b))
    ctx.check(ok if e is None else Not(ok), 'adaptive bettas are accepted exactly when greater than 1 and different')
    ctx.must_cover('accepted', 'rejected')
    ctx.cover('accepted', e is None)
    ctx.cover('rejected', e is not None)
    ctx.observe('raised', e is not None)


def penalty(name):
    if name == 'Static':
        iv = {i: [(-1, 1000)] for i in range(4)}
        co = {i: [1.0] for i in range(4)}
        return _g('StaticPenalty')(iv, co, iv, co)
    return _g(name + 'Penalty')()


NOPEN = ['dynamic', 1, [1], {'a': 1}, 'cls', 'func', 2.5, True]


def nopen(i):
    v = NOPEN[i]
    return _g('DynamicPenalty') if v == 'cls' else (lambda *a: 0) if v == 'func' else v


def penalty_type(ctx, fit, i, conds):
    """something that is no penalty"""
    def go():
        return _g(fit)(obj_function=lambda x: 0, penalty=nopen(i) if i is not None else penalty('Dynamic'), conditions=conds)
    e = attempt(ctx, go)
    ctx.check((e is None) == (i is None), 'only penalty objects are accepted as penalty')


SIGNS = ['>=', '<', '=', '==', '', 'less', '< =', '>', '!', None, 'OPTIMIZE', '=<']


def sign(ctx, fit, pen, conds, i, bad, generation=0):
    """an unknown sign among the conditions is rejected whatever the values are"""
    conds = [SIGNS[i] if c == '?' else c for c in conds]
    vals = [ctx.int(f'v{j}', -2, 3) for j in range(len(conds))]
    multi = fit != 'HyperbolaFitness'
    ctx.quiet()
    pop = bin_pop(1, ((0, 3, 1),))
    ctx.quiet(False)
    d = ga(pop, multi=multi)
    d.idx_generation = generation
    if generation and not multi:
        d.best_solution = dict(pop[0], score=1.0, obj_score=1.0, feasible=True)

    def go():
        _g(fit)(obj_function=lambda x: tuple(vals), penalty=penalty(pen), conditions=conds).execute(d)
    e = attempt(ctx, go)
    ctx.check((e is not None) == bad, 'an unknown sign is rejected, the documented ones are accepted')
    ctx.observe('raised', e is not None)


def count(ctx, fit, pen, conds, seq='tuple'):
    """number of returned values"""
    k = ctx.concrete(ctx.int('k', 1, len(conds) + 2))
    vals = [ctx.int(f'v{j}', -2, 3) for j in range(k)]
    multi = fit != 'HyperbolaFitness'
    ctx.quiet()
    pop = bin_pop(1, ((0, 3, 1),))
    ctx.quiet(False)
    d = ga(pop, multi=multi)

    def f(x):
        return tuple(vals) if seq == 'tuple' else list(vals) if seq == 'list' else vals[0]

    def go():
        _g(fit)(obj_function=f, penalty=penalty(pen), conditions=conds).execute(d)
    e = attempt(ctx, go)
    ok = k == len(conds) and seq != 'scalar'
    ctx.check((e is None) == ok, 'as many returned values as conditions are required')
    ctx.observe('raised', e is not None)


def uncond(ctx, seq, k, pop='bin'):
    """one value is expected without conditions"""
    vals = [ctx.int(f'v{j}', -2, 3) for j in range(k)]
    ctx.quiet()
    p = bin_pop(1, ((0, 3, 1),)) if pop == 'bin' else cat_pop([[1, 2]], gens=([1, 2], [1, 2]))
    ctx.quiet(False)
    d = ga(p)

    def f(x):
        return tuple(vals) if seq == 'tuple' else list(vals) if seq == 'list' else vals[0]
    e = ctx.raises(lambda: _g('HyperbolaFitness')(obj_function=f).execute(d))
    ctx.check((e is None) == (seq == 'scalar'), 'without conditions exactly one value is accepted')
    ctx.observe('raised', e is not None)


def jobs(tier):
    big = tier == 'thorough'
    J = []

    def add(func, **cfg):
        J.append(dict(func=func, cfg=cfg))
    for m in MUT:
        add('level', mut=m, what='real')
        for i in range(len(BAD)):
            add('level', mut=m, what=i)
        for w in ('weak', 'normal', 'strong', 0.0, 1.0, 0.5):
            add('level', mut=m, what=w)
    for n in (3, 4, 5) if not big else (2, 3, 4, 5, 6, 7):
        add('tsize', n=n, vega=False)
        add('tsize', n=n, vega=True)
    for algo in ('BinaryGA', 'Gray', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA'):
        multi = algo in ('VEGA', 'FFGA')
        add('facade_num', algo=algo, opt='mutation_lvl', n=4)
        if algo != 'FFGA':
            add('facade_num', algo=algo, opt='tournament_size', n=4)
            add('facade_num', algo=algo, opt='tournament_size', n=5)
        for i in range(len(BAD)):
            if i % 3 == 0 or big:
                add('facade', algo=algo, kw=dict(mutation_lvl=('BAD', i)), ok=False)
        for m in ('weak', 'normal', 'strong'):
            add('facade', algo=algo, kw=dict(mutation_lvl=m), ok=True)
        for m in MODES:
            add('facade', algo=algo, kw=dict(transfer_parents=m), ok=m in ('best', 'random'))
        for p in ('Dynamic', 'Static') + (() if multi else ('Adaptive',)):
            base = ['optimize', 'optimize'] if multi else ['optimize']
            for extra, ret, ok in ((['<='], 0, True), (['!='], 0, True), (['>='], 0, False), (['<=', '!='], 0, True), (['<='], 1, False),
                                   (['<='], -1, False), (['<=', '<'], 0, False), (['<=', '!='], -1, False), (['!='], 'scalar', False)):
                c = base + extra
                add('facade', algo=algo, kw=dict(penalty=p, conditions=c), ok=ok, ret='scalar' if ret == 'scalar' else len(c) + ret)
                add('facade', algo=algo, kw=dict(penalty=p, conditions=list(reversed(c))), ok=ok,
                    ret='scalar' if ret == 'scalar' else len(c) + ret)
        for n in (3, 4):
            add('starts', algo=algo, n=n, whole=True)
            if algo in POP:
                add('starts', algo=algo, n=n, whole=False)
    for gray in (False, True):
        for r in range(len(RANGES)):
            for pos in range(len(RANGES[r])):
                add('gene', gray=gray, rng=r, pos=pos)
                add('gene', gray=gray, rng=r, pos=pos, integer=True)
            add('gene', gray=gray, rng=r, pos=0, at=1, of=2)
            add('length', gray=gray, rng=r)
            add('length', gray=gray, rng=r, at=1, of=2)
    for cls in ('NewGeneration', 'MultiNewGeneration'):
        for i in range(len(MODES)):
            add('mode', cls=cls, i=i)
    add('bettas')
    add('bettas', integer=True)
    for fit in ('HyperbolaFitness', 'VEGAHyperbolaFitness', 'FFGAFitness'):
        multi = fit != 'HyperbolaFitness'
        base = ['optimize', 'optimize'] if multi else ['optimize']
        for i in list(range(len(NOPEN))) + [None]:
            add('penalty_type', fit=fit, i=i, conds=base + ['<='])
            add('penalty_type', fit=fit, i=i, conds=['!='] + base)
        for p in ('Dynamic', 'Static', 'Adaptive'):
            if multi and p == 'Adaptive':
                continue
            for i in range(len(SIGNS)):
                for c in (base + ['?'], ['?'] + base, base + ['<=', '?'], ['?', '!='] + base):
                    add('sign', fit=fit, pen=p, conds=c, i=i, bad=True)
            for c in (base + ['<='], ['!='] + base, base + ['!=', '<=']):
                add('sign', fit=fit, pen=p, conds=c, i=0, bad=False)
                add('sign', fit=fit, pen=p, conds=c, i=0, bad=False, generation=2)
                for s in ('tuple', 'list', 'scalar'):
                    add('count', fit=fit, pen=p, conds=c, seq=s)
    for pop in ('bin', 'cat'):
        for s, k in (('scalar', 1), ('tuple', 2), ('list', 2), ('tuple', 3)):
            add('uncond', seq=s, k=k, pop=pop)
    return J
