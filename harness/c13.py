"""C13: an individual is flagged feasible exactly when it meets every condition."""
from itertools import product
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['BaseFitness.execute/set_opt_value/set_obj_score/check_task', 'MultiFitness.set_opt_value/set_obj_score',
             'HyperbolaFitness', 'VEGAHyperbolaFitness', 'FFGAFitness']
BOUNDS = ('condition lists of 1..3 conditions with every combination of signs and every position of one "optimize" (two for '
          'multi-objective), lists of 4, 6 and 12 conditions (and around new constants) with one free value, values symbolic reals and integers, 1..2 individuals, all three penalties')
ASSUMPTIONS = ['a penalty is given (conditions are ignored without one, as documented)']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def pen(name, k):
    if name == 'Static':
        iv = {i: [(0, 1000)] for i in range(k)}
        co = {i: [1.0] for i in range(k)}
        return _g('StaticPenalty')(iv, co, iv, co)
    return _g(name + 'Penalty')()


def ok(cond, vals):
    return And([v <= 0 if c == '<=' else eq(v, 0) for c, v in zip(cond, vals) if c != 'optimize'])


def mkvals(ctx, cond, i, kind):
    mk = ctx.int if kind == 'int' else ctx.real
    return [mk(f'v{i}_{j}', -5, 5) for j in range(len(cond))]


def single(ctx, cond, penalty, kind, gen=0, n=1, target=None):
    pop = cat_pop([[i] for i in range(n)], gens=([0, 1, 2],))
    vals = [mkvals(ctx, cond, i, kind) for i in range(n)]
    d = ga(pop)
    d.idx_generation = gen
    if gen:
        d.best_solution = {'feasible': False}
    fit = _g('HyperbolaFitness')(obj_function=lambda x: tuple(vals[x[0]]), obj_value=target,
                                 penalty=pen(penalty, len(cond) - 1), conditions=list(cond))
    fit.execute(d)
    for ind, v in zip(pop, vals):
        ctx.check(Iff(ind['feasible'], ok(cond, v)), 'feasible exactly when every condition is met')
        ctx.check(eq(ind['obj_score'], v[cond.index('optimize')]), "the value declared 'optimize' is the objective")
    ctx.observe('f', [x['feasible'] for x in pop])
    ctx.must_cover('feasible', 'infeasible')
    ctx.cover('feasible', pop[0]['feasible'])
    ctx.cover('infeasible', Not(pop[0]['feasible']))


def multi(ctx, fitn, cond, penalty, kind):
    ctx.quiet()
    pop = bin_pop(2, ((0, 1, 1),))
    ctx.quiet(False)
    for i, ind in enumerate(pop):
        ind['genotype'] = [str(i)]
        ind['phenotype'] = None
    vals = [mkvals(ctx, cond, 0, kind), [1 if c == 'optimize' else 0 for c in cond]]
    d = ga(pop, multi=True)
    inds = list(pop)
    _g(fitn)(obj_function=lambda x: tuple(vals[0 if x[0] == 0 else 1]), penalty=pen(penalty, 3), conditions=list(cond)).execute(d)
    for ind, v in zip(inds, vals):
        ctx.check(Iff(ind['feasible'], ok(cond, v)), 'feasible exactly when every condition is met')
    ctx.observe('f', [x['feasible'] for x in inds])


def longer(ctx, fitn, m, penalty, opt):
    """long condition lists: all met except possibly one, anywhere"""
    signs = ['<=' if i % 3 else '!=' for i in range(m)]
    cond = signs[:opt] + ['optimize'] + signs[opt:]
    multi = fitn != 'HyperbolaFitness'
    if multi:
        cond.append('optimize')
    at = ctx.choose('at', [i for i, c in enumerate(cond) if c != 'optimize'])
    x = ctx.real('x', -5, 5)
    v = [x if i == at else 0 if c == '!=' else 2.0 if c == 'optimize' else (-1.0, 0)[i % 2] for i, c in enumerate(cond)]
    if multi:
        ctx.quiet()
        pop = bin_pop(1, ((0, 1, 1),))
        ctx.quiet(False)
    else:
        pop = cat_pop([[0]], gens=([0, 1],))
    _g(fitn)(obj_function=lambda g: tuple(v), penalty=pen(penalty, len(cond)), conditions=list(cond)).execute(ga(pop, multi=multi))
    ctx.check(Iff(pop[0]['feasible'], ok(cond, v)), 'feasible exactly when every condition is met')
    ctx.observe('f', pop[0]['feasible'])


def free(ctx, algo, seed):
    """without conditions individuals stay feasible"""
    import baumeva
    gn = {'BinaryGA': ((0, 3, 1),), 'CategoricalGA': (['a', 'b'], (0, 1, 1)), 'CombinatoryGA': (1, 3, 3),
          'VEGA': ((0, 3, 1),), 'FFGA': ((0, 3, 1),)}[algo]
    f = ctx.func('f', lambda nm: ctx.real(nm, -5, 5), 2 if algo in ('VEGA', 'FFGA') else None)
    ctx.stream(seed)
    d = getattr(baumeva, algo)(num_generations=3, num_individ=4, gens=gn, obj_function=f, tournament_size=2,
                               is_print=False).optimize()
    for ind in d.population:
        ctx.check(ind['feasible'] is True, 'without conditions individuals stay feasible')


def run(ctx, algo, seed, cond, penalty):
    """whole conditional runs: every flag matches the values the objective returned for that individual"""
    import baumeva
    gn = {'BinaryGA': ((0, 3, 1),), 'CategoricalGA': (['a', 'b'], (0, 1, 1)), 'CombinatoryGA': (1, 3, 3),
          'VEGA': ((0, 3, 1),), 'FFGA': ((0, 3, 1),)}[algo]
    tab = {}

    def mk(name):
        k = int(name.split('.')[-1])
        if cond[k] == 'optimize':
            return float(len(name) + len(tab))
        return ctx.real(name, -3, 3)
    f = ctx.func('f', mk, len(cond))

    def g(x):
        tab[tuple(x)] = 1
        return f(x)
    ctx.stream(seed)
    d = getattr(baumeva, algo)(num_generations=3, num_individ=4, gens=gn, obj_function=g, tournament_size=2, mutation_lvl=0.6,
                               conditions=list(cond), penalty=pen(penalty, len(cond) - 1), is_print=False).optimize()
    for ind in d.population:
        w = ind['phenotype'] if 'phenotype' in ind else ind['genotype']
        v = f.value(list(w))
        ctx.check(Iff(ind['feasible'], ok(cond, v)), 'feasible exactly when every condition is met')
    b = d.best_solution
    for ind in (b['pareto_set'] if 'pareto_set' in b else [b]):
        w = ind['phenotype'] if 'phenotype' in ind else ind['genotype']
        ctx.check(Iff(ind['feasible'], ok(cond, f.value(list(w)))), 'the reported solution carries the right flag')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=20 if not big else 200)
    k = 0
    for m in (1, 2, 3):
        for signs in product(['<=', '!='], repeat=m):
            for pos in range(m + 1):
                cond = list(signs[:pos]) + ['optimize'] + list(signs[pos:])
                for kind in ('real', 'int') if m < 3 or big else ('real',):
                    k += 1
                    J.append(dict(func='single', cfg=dict(cond=cond, penalty=('Dynamic', 'Adaptive', 'Static')[k % 3], kind=kind,
                                                          gen=k % 2), cost=2, limits=T))
    for p in ('Dynamic', 'Adaptive', 'Static'):
        for cond in (['<=', 'optimize'], ['optimize', '!='], ['!=', 'optimize', '<=']):
            J.append(dict(func='single', cfg=dict(cond=cond, penalty=p, kind='real', gen=2, n=2, target=1), cost=4, limits=T))
    for f in ('VEGAHyperbolaFitness', 'FFGAFitness'):
        for cond in (['optimize', '<=', 'optimize'], ['<=', 'optimize', '!=', 'optimize'], ['optimize', 'optimize', '!='],
                     ['!=', '<=', 'optimize', 'optimize']):
            J.append(dict(func='multi', cfg=dict(fitn=f, cond=cond, penalty='Dynamic', kind='real'), cost=5, limits=T))
            J.append(dict(func='multi', cfg=dict(fitn=f, cond=cond, penalty='Static', kind='int'), cost=5, limits=T))
    for m in sizes([4, 6, 12], 4, 60):
        for q, (f, p) in enumerate((('HyperbolaFitness', 'Dynamic'), ('HyperbolaFitness', 'Static'), ('HyperbolaFitness', 'Adaptive'),
                                    ('VEGAHyperbolaFitness', 'Dynamic'), ('FFGAFitness', 'Dynamic'))):
            J.append(dict(func='longer', cfg=dict(fitn=f, m=m, penalty=p, opt=(0, m // 2, m, 1, 2)[q]), cost=4, limits=T))
    for i, a in enumerate(('BinaryGA', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA')):
        J.append(dict(func='free', cfg=dict(algo=a, seed=i), cost=5, limits=dict(time=4 if not big else 60, validate=4)))
        mo = a in ('VEGA', 'FFGA')
        cond = ['<=', 'optimize', 'optimize', '!='] if mo else ['<=', 'optimize', '!=']
        for p in ('Dynamic', 'Static') + (() if mo else ('Adaptive',)):
            J.append(dict(func='run', cfg=dict(algo=a, seed=i, cond=cond, penalty=p), cost=6,
                          limits=dict(time=4 if not big else 60, validate=4)))
    J += soak_jobs('C13', tier, kinds=('bin', 'gray', 'cat', 'ord', 'ffga', 'vega'), conds=(True,))
    return J
