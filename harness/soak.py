"""Long and wide runs assembled from the documented components, for properties that hold in every generation of any size.

The run follows a fixed stream of draws except for a few explored ones at a chosen point (`at`, `k`), and the objective has a
symbolic offset; everything after the explored draws depends on them.  `what` names the properties whose assertions are
checked in every generation.  Jobs are added to the harnesses of those properties by soak_jobs()."""
from .common import *


def _g(n):
    import baumeva.ga as G
    return getattr(G, n)


KINDS = {'bin': ('BinaryPopulation', ((0, 15, 1), (-2, 1.5, 0.5)), 'OnePointCrossover', 'BinStringMutation'),
         'gray': ('BinaryGrayPopulation', ((0, 15, 1), (-2, 1.5, 0.5)), 'TwoPointCrossover', 'BinStringMutation'),
         'fine': ('BinaryPopulation', ((0, 2 ** 14 - 1, 1), (-1.0, 1.0, 0.25)), 'TwoPointCrossover', 'BinStringMutation'),
         'fine_gray': ('BinaryGrayPopulation', ((0, 2 ** 17 - 1, 1),), 'OnePointCrossover', 'BinStringMutation'),
         'cat': ('CatPopulation', ([0, 1, 2, 5], (2, 8, 2), [7, 3]), 'UniformCrossover', 'CategoricalMutation'),
         'ord': ('OrderCatPopulation', (-2, 4, 6), 'OrderCrossover', 'MovementMutation'),
         'swap': ('OrderCatPopulation', (1, 5, 5), 'OrderCrossover', 'SwapMutation'),
         'ffga': ('BinaryPopulation', ((0, 15, 1), (-2, 1.5, 0.5)), 'OnePointCrossover', 'BinStringMutation'),
         'vega': ('BinaryGrayPopulation', ((0, 15, 1), (-2, 1.5, 0.5)), 'OnePointCrossover', 'BinStringMutation')}


def polynomial(x):
    """an objective with many ties and several local optima (exact in floating point)"""
    s = 0
    for i, v in enumerate(x):
        s = s + (i + 1) * v
    return s * s / 64 - 3 * x[0]


INF = float('inf')
TABLES = {'inf': [INF], 'mixed': [INF, 3, -1, INF, 1e308, 7.5, INF], 'low': [0, -INF, INF, 2, 2], 'large': [2 ** 60, 2 ** 60 + 1, 2 ** 60 + 2, -2 ** 62],
          'tiny': [1e-300, 2e-300, 0.0, -0.0, 5e-324], 'bool': [True, False, 1, 0.5]}


def second(x):
    return 8 * x[-1] - x[0] * x[0] / 4


def limits(x):
    return x[0] - 3, (x[0] + x[-1]) % 2


def valid(kind, gens, g):
    if kind in ('bin', 'gray', 'fine', 'fine_gray', 'ffga', 'vega'):
        return len(g) == sum(bits_of(x) for x in gens) and all(c in ('0', '1') for c in g)
    if kind == 'cat':
        return len(g) == len(gens) and all(v in (p if isinstance(p, list) else range(p[0], p[1] + 1, p[2])) for v, p in zip(g, gens))
    return len(g) == gens[2] and len(set(g)) == gens[2] and all(gens[0] <= v <= gens[1] for v in g)


def soak(ctx, what, kind, n, gens, mode='best', sel='TournamentSelection', cp=0.9, seed=1, at=40, k=1, cond=False, target=None,
         sym=True, lvl=0.3, table=None):
    P, gn, cr, mu = KINDS[kind]
    multi = kind in ('ffga', 'vega')
    binary = P.startswith('Binary')
    c = ctx.real('c', -2, 2) if sym and target is None else 0.25
    base = polynomial
    if table:       # extreme values of the objective
        tab = TABLES[table]
        c = 0
        start = ctx.choose('start', list(range(len(tab))))

        def base(x):
            return tab[(start + int(sum((i + 3) * v for i, v in enumerate(x)))) % len(tab)]
    calls = []

    def value(x):
        v = [base(x) + c if not table else base(x)] + ([second(x)] if multi else [])
        if cond:
            v[1:1] = [limits(x)[0]]
            v.append(limits(x)[1])
        return v if len(v) > 1 else v[0]

    def f(x):
        calls.append(list(x))
        return value(x)
    conditions = None
    if cond:
        conditions = ['optimize', '<='] + (['optimize'] if multi else []) + ['!=']
    kw = dict(obj_function=f, obj_value=target, conditions=conditions, penalty=_g('DynamicPenalty')(c=0.5, alpha=1, betta=1) if cond else None)
    fit = _g({'ffga': 'FFGAFitness', 'vega': 'VEGAHyperbolaFitness'}.get(kind, 'HyperbolaFitness'))(**kw)
    if kind == 'vega':
        s = _g('VEGATournamentSelection')(2, 2) if sel == 'TournamentSelection' else _g('VEGA' + sel)(2)
    else:
        s = _g(sel)(2) if sel == 'TournamentSelection' else _g(sel)()
    cross, mut = _g(cr)(), _g(mu)(mutation_lvl=lvl)
    ng = _g('MultiNewGeneration' if kind == 'ffga' else 'NewGeneration')(mode)
    ctx.stream(seed, at)
    ctx.then(k, seed + 7)
    pop = _g(P)()
    pop.set_params(num_individ=n, gens=gn)
    pop.fill()
    d = ga(pop, num_generations=gens, children_percent=cp, multi=multi)
    best, best_t, front = None, None, None
    prev, nparents = None, 0
    for t in range(gens):
        if t:
            prev = [snap(i) for i in d.population]
            tops = [snap(i) for i in d.population if i['rank'] == 1] if kind == 'ffga' else None
            s.execute(d)
            cross.execute(d)
            mut.execute(d)
            if 'C08' in what:
                for i, q in zip(d.population, prev):
                    ctx.check(same_rec(snap(i), q), 'breeding leaves the current population unchanged')
                for i in d.children:
                    ctx.check(i['score'] is None and i.get('obj_score') is None, 'children are unevaluated')
            kids = [list(i['genotype']) for i in d.children]
            ng.execute(d)
            if 'C08' in what or 'C09' in what or 'C21' in what:
                old = [snap(i) for i in d.population if i['score'] is not None]
            if 'C08' in what:
                lists = [id(i['genotype']) for i in d.population if isinstance(i['genotype'], list)]
                for i in d.population:
                    if i['score'] is None and isinstance(i['genotype'], list):
                        ctx.check(lists.count(id(i['genotype'])) == 1, 'a child shares its chromosome with nobody')
                for q in old:
                    ctx.check(Or([same_rec(q, p) for p in prev if p['genotype'] == q['genotype']]), 'survivors keep their record')
            if 'C09' in what:
                top = prev[0]
                for p in prev[1:]:
                    if p['score'] > top['score']:
                        top = p
                ctx.check(Or([And(eq(q['genotype'], p['genotype']), eq(q['score'], top['score'])) for p in prev for q in old
                              if p['genotype'] == q['genotype'] and p['score'] == top['score']]), 'a best individual survives')
            if 'C21' in what and kind == 'ffga' and mode == 'best':
                have = [list(q['genotype']) for q in old]
                for p in tops:
                    if list(p['genotype']) not in have:
                        ctx.check(False, 'every individual of rank 1 is in the next generation')
                    have.remove(list(p['genotype']))
            if 'C23' in what:
                if kind == 'ffga':
                    now = [list(i['genotype']) for i in d.population]
                    for g in kids:
                        ctx.check(g in now, 'all children are in the next generation')
                        now.remove(g)
                else:
                    ctx.check(n <= len(d.population) <= n + 1, 'generations have num_individ or num_individ + 1 individuals')
            if 'C16' in what and kind not in ('vega',):
                ctx.check(len(d.parents) == 2 * int(cp * n), 'int(children_percent * num_individ) pairs')
            if 'C06' in what or 'C16' in what:
                ctx.check(len(kids) == len(d.parents) // 2, 'one child per parent pair')
        todo = [i for i in d.population if i['score'] is None]
        if 'C23' in what and t == 0:
            ctx.check(len(d.population) == n, 'the initial population has exactly num_individ individuals')
        del calls[:]
        fit.execute(d)
        if 'C11' in what:
            if not multi:
                ctx.check(len(calls) == len(todo), 'the objective is called once for each new individual')
                mine = [list(i['phenotype'] if binary else i['genotype']) for i in todo]
                ctx.check(mine == calls, 'the objective is called with the decoded values of the new individuals')
            for i in todo:
                x = i['phenotype'] if binary else i['genotype']
                v = value(x)
                o = v if not isinstance(v, list) else [v[0], v[2]] if multi and cond else v[0] if cond else v
                ctx.check(eq(i['obj_score'], o), 'the returned value is stored as objective score')
        if 'C01' in what or 'C04' in what or 'C05' in what:
            for i in d.population:
                ctx.check(valid(kind, gn, i['genotype']), 'every individual is valid')
                if binary:
                    ctx.check(all(a[0] <= v <= a[1] for v, a in zip(i['phenotype'], gn)), 'values inside the declared range')
        if ('C02' in what or 'C11' in what) and binary:
            for i in todo:
                ctx.check(And([close(a, b) for a, b in zip(own_decode(i['genotype'], gn, 'Gray' in P), i['phenotype'])]), 'decoded values belong to the chromosome')
        if 'C13' in what:
            for i in todo:
                l = limits(i['phenotype'] if binary else i['genotype'])
                ctx.check(bool(i['feasible']) == (not cond or (l[0] <= 0 and l[1] == 0)), 'feasible exactly when every condition is met')
        if 'C12' in what and not multi:
            for i in todo:
                x = i['phenotype'] if binary else i['genotype']
                pen = (0.5 * t) * (max(0, limits(x)[0]) + abs(limits(x)[1])) if cond else 0
                o = base(x) + c
                ctx.check(close(i['score'], -(o + pen)) if target is None else
                          close(i['score'] * (1 + abs(target - o) + pen), 1), 'the score follows distance or objective plus penalty')
        if ('C20' in what or 'C21' in what or 'C12' in what) and multi:
            vs = [value(i['phenotype']) for i in d.population]
            ranks = [1 + count([dominates(w, v) for w in vs]) for v in vs]
            if 'C20' in what:
                for i, r in zip(d.population, ranks):
                    ctx.check(eq(i['rank'], r), 'the rank is one plus the number of dominating individuals')
            if 'C12' in what and kind == 'ffga':
                for i, r in zip(d.population, ranks):
                    ctx.check(close(i['score'] * (1 + r), 1), 'FFGA scores are 1/(1+rank)')
            if 'C21' in what:
                want = sorted(list(i['genotype']) for i, r in zip(d.population, ranks) if r == 1)
        d.update()
        if 'C21' in what and multi:
            got = sorted(list(i['genotype']) for i in d.best_solution['pareto_set'])
            ctx.check(got == want, 'the recorded Pareto set is exactly the individuals of rank 1')
            ctx.check(not any(a is b for a in d.best_solution['pareto_set'] for b in d.population), 'as an independent copy')
        if ('C10' in what or 'C22' in what or 'C09' in what) and not multi:
            rec = [snap(i) for i in d.population]
            rec.sort(key=lambda r: r['score'])
            sc = [r['score'] for r in rec]
            if best is None or sc[-1] > best:
                best, best_t = sc[-1], t
            if 'C10' in what:
                ctx.check(eq(d.best_solution['score'], best), 'best_solution holds the highest score seen')
                ctx.check(d.best_solution['idx_generation'] == best_t, 'with the generation in which it appeared')
                ctx.check(And(eq(d.historical_best[t], sc[-1]), eq(d.historical_mediocre[t], sc[len(sc) // 2]),
                              eq(d.historical_worst[t], sc[0])), 'the history holds best, middle and worst score')
                x = d.best_solution['phenotype' if binary else 'genotype']
                v = value(x)
                ctx.check(eq(d.best_solution['obj_score'], v[0] if cond else v), 'value and objective of the record belong together')
            if 'C22' in what:
                ctx.check(d.num_generation_no_improve == t - best_t, 'generations without improvement are counted')
            if 'C09' in what and t:
                ctx.check(d.historical_best[t] >= d.historical_best[t - 1], 'the best score never decreases')
        if 'C10' in what or 'C22' in what:
            ctx.check(len(d.historical_best) == t + 1, 'one history entry per generation')
            ctx.check(d.idx_generation == t + 1, 'generations are counted')
    if target is None:      # (equal distances reached in different ways may differ by rounding)
        ctx.observe('genos', [list(i['genotype']) for i in d.population])


def dominates(w, v):
    """w dominates v"""
    return And([a <= b for a, b in zip(w, v)] + [Or([a < b for a, b in zip(w, v)])])


def soak_jobs(prop, tier, kinds=None, tall=True, wide=True, tables=(), conds=(False, True), gens_cap=150, n_cap=130, **kw):
    """runs of many generations and runs of many individuals, also around the constants that are new in the source"""
    big = tier == 'thorough'
    kinds = kinds or ('bin', 'gray', 'cat', 'ord', 'swap')
    sels = ('TournamentSelection', 'TournamentSelection', 'BalancedSelection', 'RankedSelection')
    shapes = []
    if tall:
        new = [v for v in sizes([], 10, gens_cap)]
        shapes += [(6, g) for g in sorted({60, 110} | {v + 3 for v in new[-1:]} | {v + 3 for v in new if v <= 60})]
    if wide:
        shapes += [(m, 3) for m in sizes([24, 70], 8, n_cap)]
    J = []
    for q, kd in enumerate(kinds):
        for r, (n, g) in enumerate(shapes):
            if kd in ('ffga', 'vega') and (n > 40 or g > 20):
                n, g = (min(n, 30), g) if n > 40 else (5, 12)
            i = q + r
            s = sels[i % 4] if kd in ('ffga', 'vega') else sels[i % 2]
            spec = dict(module='harness.soak', func='soak', cost=9,
                        cfg=dict(what=[prop], kind=kd, n=n, gens=g, mode=('best', 'random')[i % 2], sel=s, seed=3 + i,
                                 at=(40, 9, 300, 77)[i % 4], cond=conds[i % len(conds)], cp=(0.9, 0.5, 1.0, 0.95, 0.3)[i % 5],
                                 target=(None, None, 2)[i % 3] if kd not in ('ffga', 'vega') else None, **kw),
                        limits=dict(time=10 if not big else 200, validate=2))
            if spec['cfg']['sel'] != 'TournamentSelection' and kd == 'vega' :
                spec['cfg']['sel'] = 'RankedSelection' if s == 'RankedSelection' else 'TournamentSelection'
            if kd.startswith('fine'):
                spec['cfg'].update(lvl='weak' if r < 2 else 0.08)
            if kd == 'ffga':    # (few children and few elites leave too few individuals for a tournament)
                spec['cfg']['cp'] = max(spec['cfg']['cp'], 0.6)
            if spec not in J:
                J.append(spec)
    for q, t in enumerate(tables):
        for m, kd in enumerate(k for k in kinds if k in ('cat', 'ord')):
            J.append(dict(module='harness.soak', func='soak', cost=5,
                          cfg=dict(what=[prop], kind=kd, n=5 + q % 2, gens=8, mode=('best', 'random')[(q + m) % 2], seed=q + 2, at=30,
                                   cp=(0.9, 0.5)[q % 2], table=t), limits=dict(time=10 if not big else 100, validate=2)))
    return J
