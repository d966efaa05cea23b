"""Histories before the explored one: other runs in the same process, and component objects that were used before.

A job with cfg '_warm' starts from the state that is left by short concrete runs of every ready-made algorithm (other gene
declarations, other sizes), and every operator object that a harness uses has been used once on another, larger population.
Correct code keeps no trace of either, so the harness's assertions are the same."""
from copy import deepcopy


class Still:
    """fixed draws inside, everything as before outside"""

    def __init__(self, ctx, seed=5):
        self.c, self.seed = ctx, seed

    def __enter__(self):
        c = self.c
        self.old = (c._quiet, c._lcg, c._left, c.nstream, c.draw_cap, list(c.seeds))
        c._quiet, c._lcg, c._left, c.draw_cap = 1, (self.seed * 7919 + 12345) & 0x7fffffff, None, None

    def __exit__(self, *a):
        c = self.c
        c._quiet, c._lcg, c._left, c.nstream, c.draw_cap, c.seeds = self.old


def runs(ctx):
    """short runs of everything"""
    import baumeva
    import baumeva.ga as G

    def cost(g):
        s = 0.5
        for i, v in enumerate(g):
            s += (i + 1) * (ord(v) if isinstance(v, str) else v)
        return s

    def two(g):
        return [cost(g), 30 - cost(g)]
    with Still(ctx):
        kw = dict(num_generations=3, num_individ=5, is_print=False)
        baumeva.BinaryGA(gens=((0, 11, 0.5), (-4, 4, 1)), obj_function=cost, **kw).optimize()
        baumeva.BinaryGA(gens=((-9, 6, 1), (2, 3, 1)), obj_function=cost, is_gray=True, obj_value=3, **kw).optimize()
        for bits in (2, 3, 4, 5):
            baumeva.BinaryGA(gens=((100, 99 + 2 ** bits, 1),), obj_function=cost, is_gray=bits % 2 == 0, tournament_size=2, **kw).optimize()
        baumeva.BinaryGA(gens=((0, 5, 1), (0, 2, 1)), obj_function=lambda g: (cost(g), g[0] - 2, g[1]), penalty=G.DynamicPenalty(),
                         conditions=['optimize', '<=', '!='], **kw).optimize()
        baumeva.CategoricalGA(gens=(['a', 'z', 'q', 'w'], (3, 9, 2), [0, 1, 2]), obj_function=cost, mutation_lvl='strong',
                              **kw).optimize()
        baumeva.CombinatoryGA(gens=(3, 9, 6), obj_function=cost, **kw).optimize()
        baumeva.VEGA(gens=((0, 21, 1),), obj_function=two, tournament_size=2, **kw).optimize()
        baumeva.FFGA(gens=((0, 21, 1),), obj_function=two, **kw).optimize()


def canned(obj):
    """a GaData the component can be executed on (12 individuals, long genotypes)"""
    import baumeva.ga as G
    n = 12
    multi = isinstance(obj, (G.VEGATournamentSelection, G.VEGABalancedSelection, G.MultiNewGeneration))
    m = getattr(obj, 'num_objectives', 2)
    if isinstance(obj, G.BinStringMutation):
        pop = G.BinaryPopulation()
        pop.set_params(num_individ=n, gens=((0, 1023, 1), (0, 7, 1)))
    elif isinstance(obj, G.CategoricalMutation):
        pop = G.CatPopulation()
        pop.set_params(num_individ=n, gens=([5, 6, 7, 8], (0, 30, 2), ['c', 'd']) * 4)
    else:
        pop = G.OrderCatPopulation()
        pop.set_params(num_individ=n, gens=(20, 32, 11))
    pop.fill()
    for i, x in enumerate(pop):
        x['score'] = [0.25 + (i * (j + 3)) % 7 for j in range(m)] if multi else 0.25 + (i * 3) % 7
        x['obj_score'] = x['score']
        x['rank'] = 1 + i // 3
    d = (G.MultiGaData if multi else G.GaData)(num_generations=9, children_percent=0.75)
    d.population = pop
    d.parents = pop.get_empty_copy()
    d.parents.extend(deepcopy(x) for x in list(pop)[:8])
    d.children = pop.get_empty_copy()
    for x in list(pop)[:5]:
        c = pop.get_empty_individ()
        c['genotype'] = list(x['genotype'])
        d.children.append(c)
    return d


def used(ctx):
    """patch execute of the operators: the first execution of an object is preceded by one on canned data"""
    import baumeva.ga as G
    seen = {}
    kinds = [getattr(G, n) for n in dir(G) if isinstance(getattr(G, n), type)
             and n.endswith(('Crossover', 'Mutation', 'Selection', 'NewGeneration'))]
    done = set()

    def wrap(orig):
        def execute(self, ga_data):
            if id(self) not in seen:
                seen[id(self)] = self
                try:
                    with Still(ctx, 7):
                        orig(self, canned(self))
                except Exception:
                    pass
            return orig(self, ga_data)
        return execute
    for k in kinds:
        for c in k.__mro__:
            if c not in done and 'execute' in vars(c) and c.__module__.startswith('baumeva'):
                done.add(c)
                ctx.patch(c, 'execute', wrap(vars(c)['execute']))
