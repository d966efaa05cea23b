"""C02: binary encoding and decoding agree; Gray neighbours differ in one bit."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['BinaryPopulation.set_params/fill/get_gens_params/float_individ_to_binary/index_to_binary/'
             'binary_individ_to_float/get_phenotype', 'BinaryGrayPopulation.get_gray_value/get_index_from_gray/'
             'index_to_binary/binary_individ_to_float']
BOUNDS = ('fixed declarations of 1..3 genes, 1..6 bits per gene (thorough: 1..9); up to 70 genes with one arbitrary start value; long runs; start value, chromosome and grid index '
          'symbolic; exact arithmetic')
ASSUMPTIONS = ['rounding below 1e-9 relative is ignored (floating-point range effects are decided under C01)']
GENS = {'a': [(-0.5, -0.23, 0.1)], 'b': [(-5.0, -1.9, 1.0)], 'c': [(0.1, 0.7, 0.1)], 'd': [(0, 1, 1)], 'e': [(0, 7, 1)],
        'f': [(-3, 2, 1), (0.5, 2.5, 0.5)], 'g': [(2, 3, 1), (-7.5, 1.5, 1.5), (0, 5, 2)], 'h': [(0, 20, 1)],
        'i': [(-10.0, 10.0, 0.5)], 'j': [(10, 300, 3)], 'k': [(-1.0, 1.0, 0.004)], 'l': [(0, 9, 2), (4, 5, 1)],
        'w12': [(0, 4095, 1)], 'w17': [(0, 131071, 1)], 'w20': [(-1.0, 1048574.0, 1.0)], 'w24': [(0, 2 ** 24 - 1, 1)], 'w33': [(0, 2 ** 33 - 1, 1)], 'w18+2': [(0, 2 ** 18 - 1, 1), (0, 3, 1)],
        'w53': [(0, 2 ** 53 - 1, 1)]}
WIDE = [g for g in GENS if g[0] == 'w']


def widths(ctx, gens, gray):
    """bits per gene, from one-gene populations"""
    ctx.quiet()
    w = [len(bin_pop(1, (g,), gray)[0]['genotype']) for g in gens]
    ctx.quiet(False)
    return w


def pop_with(ctx, gens, gray, starts, n=None):
    from baumeva.ga import BinaryPopulation, BinaryGrayPopulation
    pop = (BinaryGrayPopulation if gray else BinaryPopulation)()
    pop.set_params(num_individ=n or len(starts), gens=gens, input_population=starts)
    pop.fill()
    return pop


def nearest(ctx, gens, gray, which=None):
    """a start value is encoded to a nearest grid point"""
    gens = tup(GENS[gens])
    w = widths(ctx, gens, gray)
    vs = [ctx.real(f'v{i}', g[0], g[1]) if which is None or i == which else (g[0] + g[1]) / 2 for i, g in enumerate(gens)]
    pop = pop_with(ctx, gens, gray, [vs])
    ctx.check(len(pop[0]['genotype']) == sum(w), 'chromosome length')
    for i, g in enumerate(gens):
        step = (g[1] - g[0]) / (2 ** w[i] - 1)
        d = pop[0]['phenotype'][i]
        ctx.check(And(le_tol(d - vs[i], step / 2), le_tol(vs[i] - d, step / 2)),
                  'start value is encoded to a nearest grid point')
    ctx.observe('n', len(pop[0]['genotype']))     # (at an exact tie rounding decides the side)


def nearest_many(ctx, n, at, gray):
    """many genes of different resolution: the start value of one is arbitrary, the others are fixed off-grid values"""
    kinds = ((0, 7, 1), (-1.0, 2.0, 0.1), (0, 1, 1), (-20, 40, 2), (0.5, 1.0, 0.25))
    gens = tuple(kinds[(i * i + i // 3) % 5] for i in range(n))
    w = [bits_of(g) for g in gens]
    vs = [ctx.real('v', g[0], g[1]) if i == at else g[0] + (g[1] - g[0]) * ((3 * i + 1) % 10) / 10 for i, g in enumerate(gens)]
    pop = pop_with(ctx, gens, gray, [vs])
    ctx.check(len(pop[0]['genotype']) == sum(w), 'chromosome length')
    own = own_decode([ctx.concrete(b) for b in pop[0]['genotype']], gens, gray)
    for i, g in enumerate(gens):
        step = (g[1] - g[0]) / (2 ** w[i] - 1)
        for d in (pop[0]['phenotype'][i], own[i]):
            ctx.check(And(le_tol(d - vs[i], step / 2), le_tol(vs[i] - d, step / 2)),
                      'start value is encoded to a nearest grid point')


def roundtrip(ctx, gens, gray):
    """decode any chromosome, encode the value: same chromosome"""
    gens = tup(GENS[gens])
    pop = bin_sym(ctx, 1, gens, gray)
    g = list(pop[0]['genotype'])
    again = pop_with(ctx, gens, gray, [pop[0]['phenotype']])
    ctx.check(eq(list(again[0]['genotype']), g), 'encoding a decoded value gives the same chromosome')
    ctx.observe('g', again[0]['genotype'])


def independent(ctx, gens, gray):
    """two chromosomes agreeing on one gene agree on its value; all zeros give the minimum; distinct genes distinct values"""
    gens = tup(GENS[gens])
    w = widths(ctx, gens, gray)
    pop = bin_sym(ctx, 2, gens, gray)
    a, b = pop[0], pop[1]
    at = 0
    for i, n in enumerate(w):
        same = eq(a['genotype'][at:at + n], b['genotype'][at:at + n])
        va, vb = a['phenotype'][i], b['phenotype'][i]
        ctx.check(Implies(same, eq(va, vb)), 'a gene depends on its own bits only')
        ctx.check(Implies(Not(same), Not(close(va, vb))), 'different bits of a gene give different values')
        ctx.check(Implies(And([eq(x, '0') for x in a['genotype'][at:at + n]]), eq(va, gens[i][0])),
                  'zero bits decode to the minimum')
        at += n
    ctx.observe('v', [a['phenotype'], b['phenotype']])


def neighbours(ctx, gens):
    """Gray: chromosomes of adjacent grid points differ in exactly one bit, whatever the point"""
    gens = tup(GENS[gens])
    w = widths(ctx, gens, True)
    n = 2 ** w[0] - 1
    k = ctx.int('k', 0, n - 1)
    step = (gens[0][1] - gens[0][0]) / n
    rest = [g[0] for g in gens[1:]]
    pop = pop_with(ctx, gens, True, [[gens[0][0] + k * step] + rest, [minimum(gens[0][0] + (k + 1) * step, gens[0][1])] + rest])
    a, b = pop[0]['genotype'], pop[1]['genotype']
    ctx.check(eq(count([ne(x, y) for x, y in zip(a, b)]), 1), 'neighbouring grid points differ in exactly one bit')
    ctx.observe('ab', [a, b])


def wide(ctx, gens, gray, pat):
    """long genes: a fixed pattern with five arbitrary bits, decoded and encoded again"""
    gens = tup(GENS[gens])
    ctx.quiet()
    pop = bin_pop(1, gens, gray)
    ctx.quiet(False)
    L = len(pop[0]['genotype'])
    g = [pat[i % len(pat)] for i in range(L)]
    for i, p in enumerate((0, 1, L // 2, L - 2, L - 1)):
        g[p] = '1' if ctx.truth(ctx.bool(f'b{i}')) else '0'
    pop[0]['genotype'], pop[0]['phenotype'] = list(g), None
    pop.get_phenotype()
    v = list(pop[0]['phenotype'])
    again = pop_with(ctx, gens, gray, [v])
    ctx.check(eq(list(again[0]['genotype']), g), 'encoding a decoded value gives the same chromosome')
    at = 0
    for i, n in enumerate(widths(ctx, gens, gray)):
        ctx.check(And(le_tol(gens[i][0] - v[i], 0), le_tol(v[i] - gens[i][1], 0)), 'decoded inside the range')
        step = (gens[i][1] - gens[i][0]) / (2 ** n - 1)
        w = sum(b == '1' for b in g[at:at + n])
        if w == 0:
            ctx.check(eq(v[i], gens[i][0]), 'zero bits decode to the minimum')
        if n < 40 and not gray:
            k = int(''.join(g[at:at + n]), 2)
            ctx.check(close(v[i], gens[i][0] + k * step), 'grid points are evenly spaced in the order of the codes')
        at += n


def wide_neighbours(ctx, gens, at):
    """long Gray genes: adjacent grid points around powers of two differ in one bit"""
    gens = tup(GENS[gens])
    w = widths(ctx, gens, True)
    n = 2 ** w[0] - 1
    mid = {'low': 4, 'mid': 2 ** (w[0] // 2), 'high': 2 ** (w[0] - 1)}[at]
    k = mid - 4 + ctx.concrete(ctx.int('k', 0, 7))
    step = (gens[0][1] - gens[0][0]) / n
    rest = [g[0] for g in gens[1:]]
    pop = pop_with(ctx, gens, True, [[gens[0][0] + k * step] + rest, [gens[0][0] + (k + 1) * step] + rest])
    a, b = pop[0]['genotype'], pop[1]['genotype']
    ctx.check(sum(x != y for x, y in zip(a, b)) == 1, 'neighbouring grid points differ in exactly one bit')
    ctx.check(close(pop[1]['phenotype'][0] - pop[0]['phenotype'][0], step), 'neighbouring grid points decode to neighbouring values')


def minimum(a, b):
    return ite(a < b, a, b)


def neighbours_dec(ctx, gens):
    """the same seen from decoding"""
    gens = tup(GENS[gens])
    pop = bin_sym(ctx, 2, gens, True)
    a, b = pop[0], pop[1]
    n = 2 ** len(a['genotype']) - 1
    step = (gens[0][1] - gens[0][0]) / n
    ctx.check(Implies(close(b['phenotype'][0] - a['phenotype'][0], step),
                      eq(count([ne(x, y) for x, y in zip(a['genotype'], b['genotype'])]), 1)),
              'neighbouring values have chromosomes differing in exactly one bit')
    ctx.observe('v', [a['phenotype'], b['phenotype']])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for gray in (False, True):
        for g in WIDE:
            for pat in ('0', '1', '10', '001'):
                J.append(dict(func='wide', cfg=dict(gens=g, gray=gray, pat=pat), cost=4, limits=dict(time=15)))
            if not gray:
                J.append(dict(func='nearest', cfg=dict(gens=g, gray=gray), cost=6, limits=dict(time=15)))
    for g in WIDE:
        for at in ('low', 'mid', 'high'):
            J.append(dict(func='wide_neighbours', cfg=dict(gens=g, at=at), cost=4, limits=dict(time=15)))
    for gray in (False, True):
        for g in GENS:
            if g in WIDE:
                continue
            t = dict(time=25 if not big else 900)
            multi = len(GENS[g]) > 1
            if multi:
                for i in range(len(GENS[g])):
                    J.append(dict(func='nearest', cfg=dict(gens=g, gray=gray, which=i), cost=5, limits=t))
            else:
                J.append(dict(func='nearest', cfg=dict(gens=g, gray=gray), cost=5, limits=t))
            J.append(dict(func='roundtrip', cfg=dict(gens=g, gray=gray), cost=6, limits=t))
            if g not in 'jk' and not (gray and g in 'fghi'):
                J.append(dict(func='independent', cfg=dict(gens=g, gray=gray), cost=8, limits=t))
            elif big or g == 'f':
                J.append(dict(func='independent', cfg=dict(gens=g, gray=gray), cost=9, limits=t))
    for g in GENS:
        if g in WIDE:
            continue
        J.append(dict(func='neighbours', cfg=dict(gens=g), cost=7, limits=dict(time=25 if not big else 900)))
        if len(GENS[g]) == 1 and (g not in 'hijk' or big):
            J.append(dict(func='neighbours_dec', cfg=dict(gens=g), cost=7, limits=dict(time=25 if not big else 900)))
    for n in sizes([12, 30], 4, 70):
        for at in sorted({0, n // 3, n // 2, n - 1}):
            for gray in (False, True):
                J.append(dict(func='nearest_many', cfg=dict(n=n, at=at, gray=gray), cost=3, limits=dict(time=15 if not big else 100)))
    J += soak_jobs('C02', tier, kinds=('bin', 'gray', 'fine', 'fine_gray'))
    return J
