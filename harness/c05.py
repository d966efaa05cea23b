"""C05: categorical individuals stay inside the declared categories."""
from .common import *
from .soak import soak_jobs

FUNCTIONS = ['CatPopulation.set_params/get_generated_individ/fill', 'CategoricalMutation.execute/get_mutation',
             'UniformCrossover.execute/crossover']
BOUNDS = '1..3 genes, 1..5, 12, 24 and 40 categories per gene (lists of strings, lists of mixed values, integer ranges with steps 1..3), genes of 90-600 values from first, middle and last value, equal values held as other objects, all draws'
ASSUMPTIONS = []
POOLS = {'A': [['a', 'b', 'c']], 'B': [['a', 'b'], ['x', 'y', 'z']], 'C': [('r', 1, 4, 1)], 'D': [('r', -3, 4, 3), ['q']],
         'E': [('r', 2, 9, 2), [0, 1.5, 'k']], 'F': [('r', 5, 5, 1), ['u', 'v']], 'G': [[False, None, 'n', 3]],
         'W': [['v%02d' % i for i in range(40)]], 'X': [('r', -20, 60, 2)], 'Y': [['y%02d' % i for i in range(12)], ('r', 0, 23, 1)],
         'H': [('r', 0, 3, 1), ['s', 't', 'u', 'v', 'w'], [1, 2]], 'I': [[0, 1], ('r', 0, 1, 1)]}


def gens_of(pool):
    return tuple(tuple(g[1:]) if isinstance(g, tuple) else list(g) for g in POOLS[pool])


def allowed(g):
    if isinstance(g, tuple):
        return list(range(g[0], g[1] + 1, g[2]))
    return list(g)


def isin(x, vals):
    return Or([eq(x, v) if type(v) is not bool and v is not None else (x is v) for v in vals])


def large(ctx, n, start, kind):
    """genes with very many values: from a given value every sort of target is reachable, nothing else is"""
    from baumeva.ga import CategoricalMutation, CatPopulation
    vals = list(range(-n // 2, -n // 2 + 3 * n, 3)) if kind == 'range' else ['v%04d' % ((7919 * i) % 10007) for i in range(n)]
    gen = (vals[0], vals[-1], 3) if kind == 'range' else list(vals)
    if start is None:
        pop = CatPopulation()
        pop.set_params(num_individ=1, gens=(gen, ['x', 'y']))
        pop.fill()
        v = pop[0]['genotype'][0]
        ctx.check(isin(v, vals), 'initial gene is one of the declared values')
        for t in (0, 1, n // 3, n // 2, n - 2, n - 1):
            lab = f'{kind} of {n}: value {t} can start'
            ctx.must_cover(lab)
            ctx.cover(lab, isin(v, [vals[t]]))
        return
    old = vals[start]
    pop = cat_pop([[old, 'x']], gens=(gen, ['x', 'y']))
    d = ga(pop)
    d.children = pop.get_empty_copy()
    c = pop.get_empty_individ()
    c['genotype'] = [old, 'x']
    d.children.append(c)
    CategoricalMutation(mutation_lvl=1.0).execute(d)
    v = d.children[0]['genotype'][0]
    ctx.check(isin(v, [x for x in vals if x != old]), 'a mutated gene takes another declared value')
    for t in (0, 1, n // 3, n // 2, n - 2, n - 1):
        if t != start:
            lab = f'{kind} of {n}: value {start} can become value {t}'
            ctx.must_cover(lab)
            ctx.cover(lab, isin(v, [vals[t]]))


def generate(ctx, pool, n):
    from baumeva.ga import CatPopulation
    gens = gens_of(pool)
    pop = CatPopulation()
    pop.set_params(num_individ=n, gens=gens)
    pop.fill()
    ctx.check(len(pop) == n, 'population size')
    for ind in pop:
        ctx.check(len(ind['genotype']) == len(gens), 'one value per declared gene')
        for x, g in zip(ind['genotype'], gens):
            ctx.check(isin(x, allowed(g)), 'initial gene is one of the declared values')
    ctx.observe('pop', genos(pop))
    for k, g in enumerate(gens):
        for v in allowed(g):
            lab = f'gene {k} can start as {v!r}'
            ctx.must_cover(lab)
            ctx.cover(lab, isin(pop[0]['genotype'][k], [v]))


def mutate(ctx, pool, lvl, n=1, start=None):
    """start genotype any combination of declared values"""
    from baumeva.ga import CategoricalMutation
    gens = gens_of(pool)
    olds = [[ctx.choose(f'o{r}_{k}', allowed(g)) if start is None else allowed(g)[start] for k, g in enumerate(gens)] for r in range(n)]
    pop = cat_pop([[allowed(g)[0] for g in gens]], gens=gens)
    d = ga(pop)
    d.children = pop.get_empty_copy()
    for o in olds:
        c = pop.get_empty_individ()
        c['genotype'] = list(o)
        d.children.append(c)
    CategoricalMutation(mutation_lvl=lvl).execute(d)
    for old, c in zip(olds, d.children):
        new = c['genotype']
        ctx.check(len(new) == len(gens), 'mutation keeps the number of genes')
        for k, g in enumerate(gens):
            al = allowed(g)
            ctx.check(isin(new[k], al), 'mutated gene is one of the values declared for its position')
            if lvl == 1.0 and len(al) > 1:
                ctx.check(Not(isin(new[k], [old[k]])), 'a mutated gene takes another declared value')
            if len(al) == 1:
                ctx.check(isin(new[k], [old[k]]), 'a gene with one value keeps it')
    ctx.observe('new', genos(d.children))
    if n == 1 and lvl == 1.0:
        for k, g in enumerate(gens):
            al = allowed(g)
            if start is not None and k:
                continue
            for v in al if start is None else [al[start]]:
                for w in al:
                    if v != w:
                        lab = f'gene {k}: {v!r} can become {w!r}'
                        ctx.must_cover(lab)
                        if olds[0][k] is v or olds[0][k] == v:
                            ctx.cover(lab, isin(d.children[0]['genotype'][k], [w]))


def twin(x):
    """an equal value that is another object (as after unpickling, parsing or arithmetic)"""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, str):
        return ''.join(list(x)) if len(x) > 1 else x
    if isinstance(x, float):
        return float(str(x))
    if isinstance(x, tuple):
        return tuple(twin(y) for y in x)
    return int(str(x))


TWINS = {'A': [[0.5, 1.5, 2.25]], 'B': [[1000, 2000, 3000], ['long value', 'other value']], 'C': [[(1, 2), (3, 4), (500, 600)]],
         'D': [[10 ** 20, -700, 0.125, 'text value']], 'E': [[1, 2.5], [True, 7000]]}


def mutate_twin(ctx, pool, lvl=1.0):
    """gene values equal to declared ones without being the same objects (start populations, restored runs)"""
    from baumeva.ga import CategoricalMutation
    gens = tuple(list(g) for g in TWINS[pool])
    old = [twin(ctx.choose(f'o{k}', g)) for k, g in enumerate(gens)]
    pop = cat_pop([[twin(g[0]) for g in gens]], gens=gens)
    d = ga(pop)
    d.children = pop.get_empty_copy()
    c = pop.get_empty_individ()
    c['genotype'] = list(old)
    d.children.append(c)
    CategoricalMutation(mutation_lvl=lvl).execute(d)
    new = d.children[0]['genotype']
    for k, g in enumerate(gens):
        ctx.check(any(new[k] == v for v in g), 'mutated gene is one of the values declared for its position')
        ctx.check(new[k] != old[k], 'a mutated gene takes another declared value')


def breed(ctx, pool):
    """crossover + mutation of any two declared individuals"""
    from baumeva.ga import CategoricalMutation, UniformCrossover
    gens = gens_of(pool)
    ps = [[ctx.choose(f'p{r}_{k}', allowed(g)) for k, g in enumerate(gens)] for r in range(2)]
    pop = cat_pop(ps, gens=gens)
    d = ga(pop)
    set_parents(d, [0, 1])
    UniformCrossover().execute(d)
    CategoricalMutation(mutation_lvl=0.5).execute(d)
    for c in d.children:
        for x, g in zip(c['genotype'], gens):
            ctx.check(isin(x, allowed(g)), 'bred gene is one of the values declared for its position')
    ctx.observe('new', genos(d.children))


def run(ctx, pool, seed):
    """whole run: every evaluated individual is legal, whatever the objective"""
    from baumeva import CategoricalGA
    gens = gens_of(pool)
    f = ctx.func('f', lambda n: ctx.real(n, 0, 10))
    ctx.stream(seed)
    CategoricalGA(num_generations=4, num_individ=4, gens=gens, obj_function=f, obj_value=0, tournament_size=2,
                  mutation_lvl=[0.6, 'normal', 'strong', 1.0][seed % 4], is_print=False).optimize()
    for a in f.calls:
        ctx.check(And(len(a) == len(gens), *[isin(x, allowed(g)) for x, g in zip(a, gens)]),
                  'every evaluated individual holds declared values')
    ctx.observe('calls', [list(a) for a in f.calls])


def jobs(tier):
    big = tier == 'thorough'
    J = []
    for p in POOLS:
        J.append(dict(func='generate', cfg=dict(pool=p, n=1)))
        if p in 'WXY':
            for st in (0, 5, 11) if p == 'Y' else (0, 20, 39):
                J.append(dict(func='mutate', cfg=dict(pool=p, lvl=1.0, start=st), cost=3, limits=dict(time=40)))
            continue
        for lvl in (0.5, 1.0):
            J.append(dict(func='mutate', cfg=dict(pool=p, lvl=lvl), cost=3, limits=dict(time=40)))
        J.append(dict(func='breed', cfg=dict(pool=p), cost=5, limits=dict(time=10 if not big else 300)))
    for n in sizes([90, 300] + ([1000] if big else []), 41, 600):
        for kind in ('range', 'list'):
            for st in (None, 0, n // 2, n - 1):
                J.append(dict(func='large', cfg=dict(n=n, start=st, kind=kind), cost=5, limits=dict(time=40)))
    for p in TWINS:
        J.append(dict(func='mutate_twin', cfg=dict(pool=p), cost=2, limits=dict(time=40)))
    J.append(dict(func='generate', cfg=dict(pool='B', n=2)))
    J.append(dict(func='mutate', cfg=dict(pool='B', lvl=0.5, n=2), cost=5, limits=dict(time=30)))
    for i, p in enumerate(['B', 'D', 'E', 'H']):
        J.append(dict(func='run', cfg=dict(pool=p, seed=i), cost=8, limits=dict(time=8 if not big else 200, validate=6)))
    J += soak_jobs('C05', tier, kinds=('cat',))
    return J
