"""Shared by the selection harnesses (C16..C19)."""
from math import comb
from .common import *


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


def scored(scores, extra=0, cp=0.34, multi=False, order=None):
    """evaluated population; genotype [i] identifies the individual.  extra: members beyond num_individ (later generations
    hold one individual more than declared)"""
    n = len(scores)
    pop = cat_pop([[i] for i in range(n)], gens=(list(range(n)),))
    pop.num_individ = n - extra
    for i, ind in enumerate(pop):
        s = scores[i]
        ind['score'] = list(s) if multi else s
        ind['obj_score'] = list(s) if multi else s
        ind['feasible'] = True
    d = ga(pop, children_percent=cp, multi=multi)
    if not multi:
        d.update()
    return d


def succeed(d, scores, cp, multi=False):
    """the next generation of the same run: the same individuals in a new population with other scores"""
    pop = d.population
    new = pop.get_empty_copy()
    new.__dict__ = pop.__dict__
    for i, ind in enumerate(sorted(pop, key=lambda x: x['genotype'][0])):
        s = scores[i]
        ind['score'] = list(s) if multi else s
        ind['obj_score'] = list(s) if multi else s
        new.append(ind)
    new.is_sorted = False
    d.population = new
    d.children_percent = cp
    if not multi:
        d.update()
    return d


def ids(d):
    return [p['genotype'][0] for p in d.parents]


def structure(ctx, d, scores, pairs, before):
    """what every selection guarantees, for any draw"""
    who = ids(d)
    ctx.check(len(who) == 2 * pairs, 'the documented number of pairs is formed')
    for i in range(0, len(who) - 1, 2):
        ctx.check(who[i] != who[i + 1], 'the two parents of a pair are different individuals')
    for p in d.parents:
        k = p['genotype'][0]
        ctx.check(And(0 <= k < len(scores), eq(p['score'], scores[k] if not isinstance(scores[k], (list, tuple)) else list(scores[k]))),
                  'parents are members of the population with their own score')
    ctx.check(sorted(x['genotype'][0] for x in d.population) == before, 'the population keeps its members')
    ctx.check(not any(p is q for p in d.parents for q in d.population), 'parents are copies')
    ctx.check(not any(p['genotype'] is q['genotype'] for p in d.parents for q in d.population), 'parents are copies')
    for x in d.population:
        k = x['genotype'][0]
        ctx.check(eq(x['score'], scores[k] if not isinstance(scores[k], (list, tuple)) else list(scores[k])),
                  'selection leaves the scores alone')
    return who


def tour_probs(scores, t):
    """probability that each score group wins a tournament of t: {score: p}"""
    n = len(scores)
    out = {}
    for s in set(scores):
        le = sum(x <= s for x in scores)
        lt = sum(x < s for x in scores)
        out[s] = (comb(le, t) - comb(lt, t)) / comb(n, t)
    return out


def rank_weights(scores):
    w = []
    for s in scores:
        lt = sum(x < s for x in scores)
        eqs = sum(x == s for x in scores)
        w.append(lt + (eqs + 1) / 2)
    return w


def expect_first(ctx, who, weights, first, tol=1e-9, tag='first'):
    """probability of the first parent"""
    tot = sum(weights)
    for i, w in enumerate(weights):
        ctx.expect_mass(f'{tag} parent is {i}', w / tot, tol, first=first)
    ctx.tally(f'{tag} parent is {who[0]}')


def expect_second(ctx, who, weights, tol=1e-9):
    """the second parent follows the same law among the others"""
    tot = sum(weights)
    for i in range(len(weights)):
        for j in range(len(weights)):
            if i != j and weights[i] < tot:
                ctx.expect_mass(f'pair {i},{j}', weights[j] / (tot - weights[i]), tol, given=f'1st {i}')
    ctx.tally(f'1st {who[0]}')
    ctx.tally(f'pair {who[0]},{who[1]}')


def twins_run(ctx, sel, scores, pairs, cp, seed, multi=False, groups=1):
    """a converged population: (nearly) all members carry the same genotype.  Members are told apart by their score where
    scores differ; the selection must still form the documented number of pairs, in a bounded number of draws."""
    from symx.ctx import DrawBudget
    n = len(scores)
    pop = cat_pop([[i % groups, 5] for i in range(n)], gens=(list(range(n)), [5]))
    for i, ind in enumerate(pop):
        ind['score'] = list(scores[i]) if multi else scores[i]
        ind['obj_score'] = list(scores[i]) if multi else scores[i]
        ind['feasible'] = True
    d = ga(pop, children_percent=cp, multi=multi)
    if not multi:
        d.update()
    ctx.stream(seed)
    ctx.draw_cap = 20000
    try:
        sel.execute(d)
        done = True
    except DrawBudget:
        done = False
    finally:
        ctx.draw_cap = None
    ctx.check(done, 'selection finishes on a converged population')
    ctx.check(len(d.parents) == 2 * pairs, 'the documented number of pairs is formed')
    ps = list(d.parents)
    if len(set(map(str, scores))) == n:
        for a, b in zip(ps[::2], ps[1::2]):
            ctx.check(a['score'] != b['score'], 'the two parents of a pair are different individuals')
    for p in ps:
        ctx.check(p['score'] in [list(s) if multi else s for s in scores] and p['genotype'][1] == 5,
                  'parents are members of the population with their own score')
    ctx.check(len({id(p) for p in ps} | {id(q) for q in d.population}) == len(ps) + n, 'parents are copies')
    ctx.observe('parents', [[p['genotype'], p['score']] for p in ps])


TWIN_VECS = ([1., 2., 3.], [1., 1., 1.], [0.5, 0.25, 1., 2.], [2., 2., 2., 2., 2., 2.], [6., 1., 2., 3., 5., 4.], [1., 1., 1., 1., 9.])


def twin_jobs(**kw):
    J = []
    for i, v in enumerate(TWIN_VECS):
        for cp in (0.99, 0.5):
            for g in (1, 2):
                J.append(dict(func='twins', cfg=dict(scores=v, cp=cp, seed=3 + i, groups=g, **kw)))
    return J


NEARTIES = ([1.0, 1.0 + 1e-12, 2.0], [3.0, 3.0 - 4e-16 * 3, 3.0], [1e-13, 2e-13, 3e-13], [1e6, 1e6 + 1e-9, 1e6 - 1e-9, 5.0],
            [0.5, 0.5 + 1e-10, 0.5 + 1e-7, 0.5 + 1e-4])


PERCENTS = [k / 20 for k in range(1, 21)] + [0.01, 0.07, 0.29, 0.33, 0.57, 0.58, 0.99]


def shares_run(ctx, sel, n, m, seed):
    """the number of pairs for usual percentages, in floating point: as the formula gives it, or as it is on paper"""
    from fractions import Fraction
    c = ctx.choose('percent', PERCENTS)
    multi = m is not None
    k = m or 1
    sc = [[1.0 + (7 * i + 3 * j) % n for j in range(k)] for i in range(n)]
    d = scored(sc if multi else [r[0] for r in sc], 0, c, multi=multi)
    ctx.stream(seed)
    sel.execute(d)
    good = {k * int(c * n / k), k * int(Fraction(str(c)) * n / k)}
    ctx.check(len(d.parents) % 2 == 0 and len(d.parents) // 2 in good, 'the documented number of pairs is formed')


def large(c_max=130, base=(25, 60)):
    """population sizes for the one-parent-at-a-time checks"""
    return sizes(list(base), 7, c_max)
