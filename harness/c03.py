"""C03: the binary grid has the requested resolution with the fewest bits."""
from .common import *

FUNCTIONS = ['BinaryPopulation.set_params/get_gens_params/get_real_number_of_points/get_generated_individ/fill',
             'BinaryGrayPopulation.index_to_binary']
BOUNDS = ('minimum (any real/integer -1000..1000) and range (up to 3000 steps quick, 60000 thorough) symbolic for steps '
          '1, 2, 7, 0.5, 0.1, 2.5; 1..2 genes; decimal declarations with steps 0.1..1.1 at powers of two; generation over all draws for genes of 1..5 bits, both ends and every bit for genes up to 30 bits')
ASSUMPTIONS = ['min < max, 0 < step <= max - min', 'quotients within 1e-9 of an integer may round either way']
GENS = {'a': [(-0.5, -0.2, 0.1)], 'b': [(-5.0, -1.9, 1.0)], 'd': [(0, 1, 1)], 'e': [(0, 7, 1)], 'f': [(0, 8, 1)],
        'g': [(-7.5, 1.5, 1.5)], 'h': [(0, 31, 1)], 'i': [(3, 13, 2)], 'j': [(-0.25, 0.5, 0.25)]}


def make(gens, gray, n=1):
    return bin_pop(n, gens, gray)


def right_bits(n, r):
    """n is the smallest bit count for a quotient r (within rounding)"""
    lo_ok = n >= 1
    return And(lo_ok, r < 2 ** n + 1e-9, Or(n == 1, r >= 2 ** (n - 1) - 1e-9))


def bits(ctx, step, kind, most, gray=False, extra=False):
    step = float(step) if isinstance(step, float) else step
    if kind == 'int':
        lo = ctx.int('lo', -1000, 1000)
        hi = ctx.int('hi', -1000, 1000 + most * step)
    else:
        lo = ctx.real('lo', -1000, 1000)
        hi = ctx.real('hi', -1000, 1000 + most * step)
    ctx.assume(And(hi - lo >= step, hi - lo <= most * step))
    gens = ((lo, hi, step),)
    if extra:
        gens = ((0, 5, 1),) + gens + ((1.0, 2.0, 0.5),)
    ctx.quiet()
    pop = make(gens, gray)
    ctx.quiet(False)
    n = len(pop[0]['genotype']) - (3 + 2 if extra else 0)
    ctx.check(right_bits(n, (hi - lo) / step), 'fewest bits that give the requested resolution')
    ctx.observe('n', n)


def decimal(ctx, gray, exps):
    """declarations in decimals whose range is exactly a power of two times the step (also in floating point): the step
    is kept, so the grid needs the extra bit"""
    st = ctx.choose('step', [0.1, 0.2, 0.05, 0.01, 0.3, 0.7, 1.1, 0.025])
    k = ctx.choose('exp', exps)
    lo = ctx.choose('lo', [0, 0.0, 0.1, -0.1, 0.5, -0.7, 1.0, -3.0, 100.0])
    hi = round(lo + st * 2 ** k, 6)
    if (hi - lo) / st != 2 ** k:
        return
    ctx.quiet()
    pop = make(((lo, hi, st),), gray)
    ctx.quiet(False)
    n = len(pop[0]['genotype'])
    ctx.check(n == k + 1, 'the grid step is not larger than requested, with the fewest bits')
    ctx.observe('n', n)


def grid(ctx, gens, gray):
    """what initialisation generates: exactly the evenly spaced grid from min to max"""
    gens = tup(GENS[gens])
    pop = make(gens, gray)
    lo, hi, _ = gens[0]
    n = len(pop[0]['genotype'])
    step = (hi - lo) / (2 ** n - 1)
    v = pop[0]['phenotype'][0]
    ctx.check(Or([close(v, lo + k * step) for k in range(2 ** n)]), 'generated values lie on an evenly spaced grid')
    ctx.check(right_bits(n, (hi - lo) / gens[0][2]), 'fewest bits that give the requested resolution')
    for k in range(2 ** n):
        ctx.must_cover(f'grid point {k} of {2 ** n} is generated')
        ctx.cover(f'grid point {k} of {2 ** n} is generated', close(v, lo + k * step))
    ctx.observe('v', v)


def wide(ctx, bits, gray, two=False):
    """fine grids: both ends and every bit value can be generated"""
    gens = ((0, 2 ** bits - 1, 1),)
    pop = make(gens if not two else ((0, 1, 1),) + gens, gray)
    g = pop[0]['genotype'][1 if two else 0:]
    ctx.check(len(g) == bits, 'fewest bits that give the requested resolution')
    v = pop[0]['phenotype'][-1]
    ctx.check(And(v >= 0, v <= 2 ** bits - 1), 'generated values lie in the range')
    want = [(f'bit {i} of {bits} starts as {b}', eq(g[i], b)) for i in range(bits) for b in '01']
    want += [(f'the lowest of {bits} bits is generated', close(v, 0)),
             (f'the highest of {bits} bits is generated', close(v, 2 ** bits - 1))]
    for lab, c in want:
        ctx.must_cover(lab)
        ctx.cover(lab, c)


def counts(ctx, gray, exps):
    """bit counts of fine grids around powers of two (as far as the declaration is exact in floating point)"""
    k = ctx.choose('bits', exps)
    off = ctx.choose('offset', [-1, 0, 1])
    st = ctx.choose('step', [1, 0.5, 2.0 ** -20])
    lo = ctx.choose('min', [0, -(2.0 ** (k - 1)) * st])
    r = 2 ** k + off
    if r < 1 or lo + r * st - lo != r * st or (lo + r * st - lo) / st != r:
        return
    ctx.quiet()
    pop = make(((lo, lo + r * st, st),), gray)
    ctx.quiet(False)
    # (a step count of exactly 2**k is documented to get the extra bit)
    ctx.check(len(pop[0]['genotype']) == r.bit_length(), 'the grid step is not larger than requested, with the fewest bits')


def grid_all(ctx, gens, gray):
    """every chromosome decodes to a point of that grid"""
    gens = tup(GENS[gens])
    pop = bin_sym(ctx, 1, gens, gray)
    lo, hi, _ = gens[0]
    n = len(pop[0]['genotype'])
    step = (hi - lo) / (2 ** n - 1)
    v = pop[0]['phenotype'][0]
    ctx.check(Or([close(v, lo + k * step) for k in range(2 ** n)]), 'decoded values lie on an evenly spaced grid')
    ctx.observe('v', v)


def jobs(tier):
    big = tier == 'thorough'
    J = []
    most = 60000 if big else 3000
    for gray in (False, True):
        for st in sorted({1, 2, 7, 100, 1000} | {c + e for c in new_consts() if 7 < c < 10 ** 6 for e in (0, 1)}):
            J.append(dict(func='bits', cfg=dict(step=st, kind='int', most=most, gray=gray), cost=5, limits=dict(time=60)))
        for st in (0.5, 0.1, 2.5, 250.5, 0.001):
            J.append(dict(func='bits', cfg=dict(step=st, kind='real', most=most, gray=gray), cost=5, limits=dict(time=60)))
        J.append(dict(func='bits', cfg=dict(step=1, kind='real', most=40, gray=gray, extra=True), cost=5, limits=dict(time=60)))
        J.append(dict(func='decimal', cfg=dict(gray=gray, exps=[1, 2, 3, 4, 5, 7, 10]), cost=5, limits=dict(time=60)))
        for a in range(1, 52, 6):
            J.append(dict(func='counts', cfg=dict(gray=gray, exps=list(range(a, min(a + 6, 52)))), cost=3, limits=dict(time=30)))
        for b in sorted({8, 11, 13, 16, 20, 24, 30} | {c.bit_length() + e for c in new_consts() if c > 1 for e in (0, 1) if c.bit_length() <= 40}
                        | set(sizes([], 6, 40))):
            J.append(dict(func='wide', cfg=dict(bits=b, gray=gray, two=b % 2 == 0), cost=3, limits=dict(time=60)))
        for g in GENS:
            J.append(dict(func='grid', cfg=dict(gens=g, gray=gray), cost=3, limits=dict(time=60)))
            J.append(dict(func='grid_all', cfg=dict(gens=g, gray=gray), cost=3, limits=dict(time=60)))
    return J
