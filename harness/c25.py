"""C25: a fixed seed makes runs reproducible."""
from .common import *

FUNCTIONS = ['GlobalGenerator', 'BasePopulation.__init__', 'populations, selections, crossovers, mutations, NewGeneration (every use of '
             'the random module in whole runs)', 'BinaryGA/CategoricalGA/CombinatoryGA/VEGA/FFGA/CollectorGA.optimize']
BOUNDS = ('the random module is modelled as an arbitrary deterministic function of the seed and of the calls made since seeding; seed '
          'symbolic integer -3..10^9 (0 included) or chosen large values; runs of 2..4 generations of 4 individuals of every '
          'algorithm, before and between them 0..3 other draws, re-seeding by the user, or a run of another algorithm; arbitrary '
          'objective values; runs of 24 individuals or 32 generations with a fixed objective')
ASSUMPTIONS = ['all randomness comes from the random module', 'the objective is deterministic']


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


GN = {'BinaryGA': ((0, 7, 1), (-1, 1, 0.5)), 'CategoricalGA': (['a', 'b', 'c'], (0, 3, 1)), 'CombinatoryGA': (1, 4, 4),
      'VEGA': ((0, 7, 1),), 'FFGA': ((0, 7, 1),), 'Gray': ((0, 7, 1), (-1, 1, 0.5))}


def one(algo, f, gens, n=4, mode='best', lvl='strong', stop=10):
    import baumeva
    if algo == 'Collector':
        c = baumeva.CollectorGA(fitness=_g('HyperbolaFitness')(obj_function=f), selection=_g('RankedSelection')(),
                                crossover=_g('TwoPointCrossover')(), mutation=_g('CategoricalMutation')(lvl),
                                new_generation=_g('NewGeneration')(mode))
        c.set_population(population=_g('CatPopulation'), num_individ=n, num_generations=gens, gens=([0, 1, 2],) * 4, early_stop=stop)
        c.optimize()
        return c.ga_data
    if algo in ('Swap', 'Inversion', 'Shift'):
        c = baumeva.CollectorGA(fitness=_g('HyperbolaFitness')(obj_function=f, obj_value=0),
                                selection=_g('BalancedSelection')(),
                                crossover=_g('OrderCrossover')(), mutation=_g(algo + 'Mutation')(lvl),
                                new_generation=_g('NewGeneration')(mode))
        c.set_population(population=_g('OrderCatPopulation'), num_individ=n, num_generations=gens, gens=(1, 4, 4), early_stop=stop)
        c.optimize()
        return c.ga_data
    kw = {} if algo == 'FFGA' else dict(tournament_size=2)
    if algo == 'Gray':
        kw['is_gray'] = True
    return getattr(baumeva, 'BinaryGA' if algo == 'Gray' else algo)(
        num_generations=gens, num_individ=n, gens=GN[algo], obj_function=f, is_print=False, mutation_lvl=lvl,
        transfer_parents=mode, early_stop=stop, **kw).optimize()


def outcome(d):
    b = d.best_solution
    if 'pareto_set' in b:
        return [[list(x['genotype']), list(x['obj_score'])] for x in b['pareto_set']]
    return [list(b['genotype']), b['score'], b['idx_generation'], list(d.historical_best)]


def concrete_obj(algo, log):
    """plain objective that tells individuals apart"""
    multi = algo in ('VEGA', 'FFGA')

    def f(x):
        log.append(list(x))
        s = 1.0
        for i, v in enumerate(x):
            s += (i + 1) * (ord(v) if isinstance(v, str) else v) ** 2
        return (s, 40.0 - 3 * s) if multi else s
    return f


def seed_of(ctx, seed):
    if seed == 'sym':
        return ctx.int('seed', -3, 10 ** 9)
    return seed


def disturb(ctx, what, seed_stream):
    import random
    if what == 'draws':
        for _ in range(3):
            random.random()
    elif what == 'reseed':
        random.seed(77)
        random.randint(0, 5)
    elif what == 'other':
        log = []
        one('CategoricalGA', concrete_obj('CategoricalGA', log), 2)
    elif what == 'otherseed':
        from baumeva import generator
        old = generator.rnd_seed
        generator.rnd_seed = 123456
        log = []
        one('BinaryGA', concrete_obj('BinaryGA', log), 2)
        generator.rnd_seed = old
    elif what == 'read':
        from baumeva import generator
        generator.rnd_seed


def get_generator():
    import baumeva
    if hasattr(baumeva, 'generator'):
        return baumeva.generator
    from baumeva.global_generator import generator
    return generator


def twice(ctx, algo, seed, before, between, stream=1, gens=3, symf=False, mode='best', lvl='strong', n=4):
    ctx.random.seeded = True
    gen = get_generator()
    s = seed_of(ctx, seed)
    ctx.stream(stream)
    disturb(ctx, before, stream)
    gen.rnd_seed = s
    log = []
    multi = algo in ('VEGA', 'FFGA')
    if symf:
        fn = ctx.func('f', lambda nm: ctx.int(nm, 1, 3), 2 if multi else None)

        def f(x):
            log.append(list(x))
            return fn(x)
    else:
        f = concrete_obj(algo, log)
    d1 = one(algo, f, gens, n, mode=mode, lvl=lvl, stop=max(10, gens))
    t1, r1 = [list(x) for x in log], outcome(d1)
    disturb(ctx, between, stream)
    del log[:]
    d2 = one(algo, f, gens, n, mode=mode, lvl=lvl, stop=max(10, gens))
    ctx.check(eq(log, t1), 'the same individuals are evaluated in the same order')
    ctx.check(eq(outcome(d2), r1), 'the same result is returned')
    if seed == 'sym':
        ctx.check(eq(gen.rnd_seed, s), 'the seed that was set is kept')
    gen.rnd_seed = None
    ctx.observe('t', t1[:4])


def unseeded(ctx, algo, stream, user=False):
    """no seed: two runs do not repeat a fixed sequence"""
    ctx.random.seeded = True
    gen = get_generator()
    ctx.check(gen.rnd_seed is None, 'no seed unless the user sets one')
    ctx.stream(stream)
    log = []
    f = concrete_obj(algo, log)
    one(algo, f, 3, n=5)
    t1 = [list(x) for x in log]
    del log[:]
    one(algo, f, 3, n=5)
    ctx.check(log != t1, 'runs without a seed do not repeat a fixed sequence')


def cleared(ctx, algo, stream):
    """after the seed is taken back, runs do not repeat it"""
    ctx.random.seeded = True
    gen = get_generator()
    ctx.stream(stream)
    gen.rnd_seed = 5
    log = []
    f = concrete_obj(algo, log)
    one(algo, f, 3, n=5)
    t1 = [list(x) for x in log]
    gen.rnd_seed = None
    del log[:]
    one(algo, f, 3, n=5)
    ctx.check(log != t1, 'runs after clearing the seed do not repeat the seeded sequence')


def other_seed(ctx, algo, stream, a, b):
    """seed a, then seed b, then a again: both runs with a agree"""
    ctx.random.seeded = True
    gen = get_generator()
    ctx.stream(stream)
    log = []
    f = concrete_obj(algo, log)
    ts = []
    for s in (a, b, a):
        gen.rnd_seed = s
        del log[:]
        d = one(algo, f, 3)
        ts.append(([list(x) for x in log], outcome(d)))
    gen.rnd_seed = None
    ctx.check(eq(ts[0], ts[2]), 'setting the same seed again repeats the run')
    ctx.check(ne(ts[0], ts[1]), 'another seed is another sequence')


ALL = ('BinaryGA', 'Gray', 'CategoricalGA', 'CombinatoryGA', 'VEGA', 'FFGA', 'Collector', 'Swap', 'Inversion', 'Shift')


def jobs(tier):
    big = tier == 'thorough'
    J = []
    T = dict(time=10 if not big else 120)
    for algo in ALL:
        for bf, bt in ((None, None), ('draws', 'draws'), ('reseed', 'reseed'), ('other', 'other'), (None, 'otherseed'), ('read', 'read')):
            J.append(dict(func='twice', cfg=dict(algo=algo, seed='sym', before=bf, between=bt), cost=3, limits=T))
        for s in (0, 1, -1, 42, 2 ** 40):
            J.append(dict(func='twice', cfg=dict(algo=algo, seed=s, before=None, between='draws', stream=2, mode='random', lvl='normal'), limits=T))
        J.append(dict(func='twice', cfg=dict(algo=algo, seed='sym', before='draws', between='other', symf=True, gens=2), cost=4, limits=T))
        # many individuals, many generations
        multi = algo in ('VEGA', 'FFGA')
        for n in sizes([24], 5, 130 if not multi else 40):
            J.append(dict(func='twice', cfg=dict(algo=algo, seed='sym', before=None, between='draws', stream=3, gens=3, n=n), cost=5, limits=T))
        for g in sizes([30], 5, 120 if not multi else 30):
            J.append(dict(func='twice', cfg=dict(algo=algo, seed='sym', before='draws', between='other', stream=4, gens=g + 2, n=6, mode='random'), cost=5, limits=T))
        for st in (1, 2):
            J.append(dict(func='unseeded', cfg=dict(algo=algo, stream=st), limits=T))
        J.append(dict(func='cleared', cfg=dict(algo=algo, stream=1), limits=T))
        for a, b in ((0, 1), (1, 0), (7, 8)):
            J.append(dict(func='other_seed', cfg=dict(algo=algo, stream=1, a=a, b=b), limits=T))
    return J
