"""Shared builders.  Everything goes through the documented classes of baumeva."""
from copy import deepcopy
from symx.api import *          # noqa: F401,F403


def bare(pop, genotypes):
    """fill a population instance with given genotypes (unevaluated individuals, as fill() would make them)"""
    return pop


def cat_pop(genotypes, gens=None, cls=None, n=None):
    from baumeva.ga import CatPopulation
    pop = (cls or CatPopulation)()
    pop.set_params(num_individ=n or len(genotypes), gens=gens, input_population=genotypes)
    pop.fill()
    return pop


def bin_pop(n, gens, gray=False, input_population=None):
    from baumeva.ga import BinaryPopulation, BinaryGrayPopulation
    pop = (BinaryGrayPopulation if gray else BinaryPopulation)()
    pop.set_params(num_individ=n, gens=gens, input_population=input_population)
    pop.fill()
    return pop


def ga(pop, num_generations=10, children_percent=0.95, early_stop=10, multi=False):
    from baumeva.ga import GaData, MultiGaData
    d = (MultiGaData if multi else GaData)(num_generations=num_generations, children_percent=children_percent,
                                           early_stop=early_stop)
    d.population = pop
    return d


def set_parents(d, idxs):
    """parents as a selection would leave them: copies of population members, pairwise"""
    d.parents = d.population.get_empty_copy()
    for i in idxs:
        d.parents.append(deepcopy(d.population[i]))


def mark_evaluated(pop, scores):
    for ind, s in zip(pop, scores):
        ind['score'] = s
        ind['obj_score'] = s


def genos(pop):
    return [list(i['genotype']) for i in pop]


BASE_CONSTS = None


def new_consts(files=None):
    """integers appearing in the source of /repo that were not there at the pinned commit: candidate thresholds.
    The bounded sizes of the harnesses are extended to cover them."""
    import ast
    import json
    import os
    root = os.environ.get('VERIF_REPO', '/repo')
    here = os.path.dirname(os.path.abspath(__file__))
    base = json.load(open(os.path.join(here, 'base_consts.json')))
    out = set()
    for dp, _, fs in os.walk(os.path.join(root, 'baumeva')):
        for f in fs:
            if not f.endswith('.py'):
                continue
            p = os.path.join(dp, f)
            try:
                t = ast.parse(open(p, encoding='utf-8').read())
            except SyntaxError:
                continue
            rel = os.path.relpath(p, root)
            cs = {}
            for n in ast.walk(t):
                if isinstance(n, ast.Constant) and type(n.value) is int:
                    cs[n.value] = cs.get(n.value, 0) + 1
            for v, k in cs.items():
                if k > base.get(rel, {}).get(str(v), 0):
                    out.add(v)
    return sorted(out)


def sizes(base, lo, cap):
    """base sizes plus those around constants new in the source"""
    s = set(base)
    for c in new_consts():
        for v in (c - 1, c, c + 1, c + 2):
            if lo <= v <= cap:
                s.add(v)
    return sorted(s)


def tup(gens):
    return tuple(tuple(g) for g in gens)


def bin_sym(ctx, n, gens, gray=False, tag='b', decode=True):
    """population of n individuals whose chromosomes are arbitrary (symbolic) bit strings"""
    ctx.quiet()
    pop = bin_pop(n, tup(gens), gray)
    ctx.quiet(False)
    for k, ind in enumerate(pop):
        ind['genotype'] = ctx.bits(f'{tag}{k}', len(ind['genotype']))
        ind['phenotype'] = None
    if decode:
        pop.get_phenotype()
    return pop


KEYS = ('genotype', 'phenotype', 'score', 'obj_score', 'feasible')


def snap(ind):
    """independent record of what a user sees of an individual"""
    return {k: (list(ind[k]) if isinstance(ind.get(k), (list, tuple)) else ind.get(k)) for k in KEYS if k in ind}


def same_rec(a, b):
    """two records agree on every visible field"""
    if set(a) != set(b):
        return False
    cs = []
    for k in a:
        if a[k] is None or b[k] is None:
            if a[k] is not b[k]:
                return False
        else:
            cs.append(eq(a[k], b[k]))
    return And(cs)


def stepwise(ctx, d, fit, sel, cross, mut, newgen, gens, each):
    """the documented main loop with a callback after every generation"""
    fit.execute(d)
    d.update()
    each(0)
    for t in range(1, gens):
        sel.execute(d)
        cross.execute(d)
        mut.execute(d)
        newgen.execute(d)
        fit.execute(d)
        d.update()
        each(t)


def rclose(a, b, tol=1e-9):
    """equality up to relative rounding only (no absolute slack)"""
    if is_sym(a) or is_sym(b):
        import z3
        from symx.core import real_e, mkbool, rv
        x, y = real_e(a), real_e(b)
        d = z3.If(x >= y, x - y, y - x)
        m = z3.If(x >= 0, x, -x) + z3.If(y >= 0, y, -y)
        return mkbool(z3.simplify(d <= rv(tol) * m))
    return abs(a - b) <= tol * (abs(a) + abs(b))


def bits_of(gen):
    """documented number of bits of a gene (min, max, step)"""
    from fractions import Fraction
    pts = int(Fraction(gen[1] - gen[0]) / Fraction(gen[2]))
    n = 0
    while 2 ** n - 1 < pts:
        n += 1
    return n


def own_decode(genotype, gens, gray=False):
    """the decoded values of a chromosome, computed here from the declaration alone"""
    out, at = [], 0
    for g in gens:
        n = bits_of(g)
        bs = [eq(c, '1') for c in genotype[at:at + n]]
        at += n
        if gray:
            acc, r = False, []
            for b in bs:
                acc = Not(Iff(acc, b))
                r.append(acc)
            bs = r
        idx = 0
        for b in bs:
            idx = idx * 2 + count([b])
        out.append(g[0] + idx * ((g[1] - g[0]) / (2 ** n - 1)))
    return out
