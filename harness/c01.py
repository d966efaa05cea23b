"""C01: binary search never leaves the declared gene ranges."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['BinaryPopulation.set_params/get_gens_params/get_generated_individ/binary_individ_to_float/get_phenotype/fill',
             'BinaryGrayPopulation.*', 'OnePointCrossover', 'TwoPointCrossover', 'UniformCrossover', 'BinStringMutation',
             'BaseFitness.execute', 'BinaryGA.optimize', 'VEGA.optimize', 'FFGA.optimize']
BOUNDS = ('decoding: chromosomes of 1..7 bits per gene (all values symbolic) over fixed declarations chosen to round '
          'badly, with bit-exact IEEE rounding; symbolic min/max (0..1000) with up to 3 bits under the standard rounding '
          'error bound; bred chromosomes: 1..3 genes, up to 7 bits; whole runs: 3 generations of 4')
ASSUMPTIONS = ['min < max, 0 < step <= max - min']
GENS = {'a': [(-0.5, -0.23, 0.1)], 'b': [(-5.0, -1.9, 1.0)], 'c': [(0.1, 0.7, 0.1)], 'd': [(-1.1, 2.3, 0.5)],
        'e': [(0, 7, 1)], 'f': [(-3, 2, 1), (0.3, 0.9, 0.2)], 'g': [(2, 3, 1), (-7.7, 0.1, 1.3), (0, 5, 2)],
        'h': [(0.1, 0.3, 0.1)], 'i': [(-4.35, -0.02, 0.3)], 'j': [(-10.0, 10.0, 0.3)], 'k': [(1e-3, 7e-3, 1e-3)],
        'l': [(-0.9, -0.3, 0.2)], 'm': [(-5.12, 5.12, 0.5), (1, 4, 1)]}


def inside(v, gens):
    return And([And(x >= g[0], x <= g[1]) for x, g in zip(v, gens)])


def nbits(pop):
    return sum(pop.num_bits)


def decode(ctx, gens, gray=False, mode='ieee'):
    """every chromosome"""
    ctx.rounding(mode)
    gens = tup(GENS[gens])
    pop = bin_sym(ctx, 1, gens, gray)
    v = pop[0]['phenotype']
    ctx.observe('v', v)
    ctx.check(len(v) == len(gens), 'one value per gene')
    ctx.check(inside(v, gens), 'decoded value inside the declared range')


def decode_many(ctx, n, at, gray=False):
    """many genes: the chromosome of one is arbitrary, the others are at their maximum"""
    ctx.rounding('ieee')
    base = [(-0.1, 0.3, 0.05), (-0.9, -0.3, 0.2), (0.1, 0.7, 0.1), (-4.35, -0.02, 0.3), (0, 7, 1)]
    gens = tup(base[i % 5] for i in range(n))
    ctx.quiet()
    pop = bin_pop(1, gens, gray)
    ctx.quiet(False)
    g = []
    for i, k in enumerate(pop.num_bits):
        top = ['1'] + ['0'] * (k - 1) if gray else ['1'] * k
        g += ctx.bits('b', k) if i == at else top
    pop[0]['genotype'] = g
    pop[0]['phenotype'] = None
    pop.get_phenotype()
    v = pop[0]['phenotype']
    ctx.check(len(v) == n, 'one value per gene')
    for i in range(n):
        ctx.check(And(v[i] >= gens[i][0], v[i] <= gens[i][1]), 'decoded value inside the declared range')
    ctx.observe('v', v)


def decode_any(ctx, width, st=1.0, gray=False):
    """any min and max with 2^width-1 steps; standard model of rounding"""
    ctx.rounding('fl')
    lo = ctx.real('lo', -1000, 1000)
    hi = ctx.real('hi', -1000, 100000)
    n = 2 ** width - 1
    ctx.assume(And(hi >= lo + st * (n / 2 + 0.75), hi <= lo + st * (n + 0.75)))
    from baumeva.ga import BinaryPopulation, BinaryGrayPopulation
    pop = (BinaryGrayPopulation if gray else BinaryPopulation)()
    pop.set_params(num_individ=1, gens=((lo, hi, st),))
    ctx.quiet()
    pop.fill()
    ctx.quiet(False)
    k = len(pop[0]['genotype'])
    pop[0]['genotype'] = ctx.bits('b', k)
    pop[0]['phenotype'] = None
    pop.get_phenotype()
    ctx.check(And(pop[0]['phenotype'][0] >= lo, pop[0]['phenotype'][0] <= hi), 'decoded value inside the declared range')


def is_chromosome(g, n):
    return And(isinstance(g, list), len(g) == n, *[is_bit(x) for x in g])


def initial(ctx, gens, gray, n, start=None):
    from baumeva.ga import BinaryPopulation, BinaryGrayPopulation
    gens = tup(GENS[gens])
    pop = (BinaryGrayPopulation if gray else BinaryPopulation)()
    pop.set_params(num_individ=n, gens=gens, input_population=start)
    pop.fill()
    total = sum(pop.num_bits)
    ctx.check(len(pop) == n, 'population size')
    for ind in pop:
        ctx.check(is_chromosome(ind['genotype'], total), 'initial chromosome is a bit list of the declared length')
        ctx.check(inside(ind['phenotype'], gens), 'initial values inside the declared range')
    ctx.observe('pop', genos(pop))


def breed(ctx, gens, gray, cross, lvl):
    """children of any parents"""
    import baumeva.ga as G
    gens = tup(GENS[gens])
    pop = bin_sym(ctx, 2, gens, gray, decode=False)
    total = sum(pop.num_bits)
    d = ga(pop)
    set_parents(d, [0, 1])
    getattr(G, cross)().execute(d)
    G.BinStringMutation(mutation_lvl=lvl).execute(d)
    for c in d.children:
        ctx.check(is_chromosome(c['genotype'], total), 'bred chromosome is a bit list of the declared length')
    ctx.observe('kids', genos(d.children))


def generation(ctx, gens, gray, cross, lvl):
    """the values handed to the objective after breeding are inside the range"""
    import baumeva.ga as G
    gens = tup(GENS[gens])
    seen = []

    def f(x):
        seen.append(list(x))
        return 1.0
    ctx.quiet()
    pop = bin_pop(3, gens, gray)
    ctx.quiet(False)
    total = sum(pop.num_bits)
    pop[0]['genotype'] = ['1'] * total
    pop[1]['genotype'] = ctx.bits('b', total)
    for ind in pop:
        ind['phenotype'] = None
    d = ga(pop)
    fit = G.HyperbolaFitness(obj_function=f)
    fit.execute(d)
    set_parents(d, [0, 1])
    getattr(G, cross)().execute(d)
    G.BinStringMutation(mutation_lvl=lvl).execute(d)
    G.NewGeneration().execute(d)
    fit.execute(d)
    for v in seen:
        ctx.check(And(len(v) == len(gens), inside(v, gens)), 'evaluated values inside the declared range')
    ctx.observe('seen', seen)


def run(ctx, algo, gens, gray, seed, start=None, multi=False):
    import baumeva
    gens = tup(GENS[gens])
    f = ctx.func('f', lambda n: ctx.real(n, 0, 10), 2 if multi else None)
    ctx.stream(seed)
    getattr(baumeva, algo)(num_generations=3, num_individ=4, gens=gens, obj_function=f, is_gray=gray,
                           tournament_size=2, mutation_lvl=[1.0, 'normal', 'strong', 0.5][seed % 4],
                           input_population=start, is_print=False).optimize()
    for v in f.calls:
        ctx.check(And(len(v) == len(gens), inside(v, gens)), 'evaluated values inside the declared range')
    ctx.observe('calls', f.calls)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for g in GENS:
        for gray in (False, True):
            if gray and g in 'jm' and not big:
                continue
            J.append(dict(func='decode', cfg=dict(gens=g, gray=gray), cost=6, limits=dict(time=40 if not big else 600)))
    for n in sizes([9, 22], 4, 70):
        for gray in (False, True):
            for at in (0, n // 2, n - 1):
                J.append(dict(func='decode_many', cfg=dict(n=n, at=at, gray=gray), cost=3, limits=dict(time=30)))
    for w in (1, 2, 3) if not big else (1, 2, 3, 4, 5):
        for gray in (False, True):
            for st in (1.0, 0.1) if not gray or big else (1.0,):
                J.append(dict(func='decode_any', cfg=dict(width=w, gray=gray, st=st), cost=8,
                              limits=dict(time=30 if not big else 600)))
    for g in 'aefgi':
        for gray in (False, True):
            J.append(dict(func='initial', cfg=dict(gens=g, gray=gray, n=1 if g == 'g' else 2), cost=3, limits=dict(time=20)))
    J.append(dict(func='initial', cfg=dict(gens='f', gray=False, n=2, start=[[2, 0.9]])))
    J.append(dict(func='initial', cfg=dict(gens='a', gray=True, n=2, start=[[-0.23]])))
    for c in ('OnePointCrossover', 'TwoPointCrossover', 'UniformCrossover'):
        for gray in (False, True):
            J.append(dict(func='breed', cfg=dict(gens='f', gray=gray, cross=c, lvl=0.5), cost=5,
                          limits=dict(time=8 if not big else 120)))
            J.append(dict(func='breed', cfg=dict(gens='e', gray=gray, cross=c, lvl=0.3), cost=5, limits=dict(time=20)))
            J.append(dict(func='generation', cfg=dict(gens='d' if gray else 'c', gray=gray, cross=c, lvl=0.5), cost=5,
                          limits=dict(time=10 if not big else 120)))
    k = 0
    for algo in ('BinaryGA', 'VEGA', 'FFGA'):
        for gray in (False, True):
            k += 1
            J.append(dict(func='run', cfg=dict(algo=algo, gens='bfi'[k % 3], gray=gray, seed=k, multi=algo != 'BinaryGA'),
                          cost=9, limits=dict(time=8 if not big else 200, validate=5)))
    J += soak_jobs('C01', tier, kinds=('bin', 'gray', 'fine', 'fine_gray', 'ffga'))
    return J
