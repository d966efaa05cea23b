#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] [--only FUNC]   (run in /verif)"""
import argparse
import ast
import glob
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import time

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)


def encoded_functions(msgs=None):
    n = {}
    for p in sorted(glob.glob(os.path.join(REPO, 'baumeva', '**', '*.py'), recursive=True)):
        t = ast.parse(open(p, encoding='utf-8').read())
        n[os.path.relpath(p, REPO)] = sum(isinstance(x, ast.FunctionDef) for x in ast.walk(t))
    return n


def with_history(specs, on, tier):
    """every third configuration of a harness (one at least) starts after other runs and with used operator objects"""
    if not on:
        return specs
    groups = {}
    for s in specs:
        groups.setdefault(s['func'], []).append(s)
    out = []
    for f, ss in groups.items():
        if on is not True and f not in on:
            out += ss
            continue
        if len(ss) == 1 or tier == 'thorough':
            out += ss + [dict(s, cfg=dict(s['cfg'], _warm=1)) for s in (ss if len(ss) == 1 else ss[1::3])]
        else:
            out += [dict(s, cfg=dict(s['cfg'], _warm=1)) if i % 3 == 1 else s for i, s in enumerate(ss)]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--procs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    outdir = os.path.join(VERIF, 'out', prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    mod = importlib.import_module(f'harness.{prop.lower()}')
    specs = mod.jobs(tier)
    for s in specs:
        s['module'] = s.get('module', mod.__name__)
        s.setdefault('limits', {}).setdefault('time', 100.0 if tier == 'quick' else 900.0)
    specs = with_history(specs, getattr(mod, 'WARM', True), tier)
    if a.only:
        specs = [s for s in specs if s['func'] == a.only]
    order = sorted(range(len(specs)), key=lambda i: -specs[i].get('cost', 1))
    from symx.job import run_job
    results = []
    stop_at = t0 + (780 if tier == 'quick' else 6 * 3600)
    with mp.get_context('spawn').Pool(min(a.procs, len(specs)), maxtasksperchild=None) as pool:
        it = pool.imap_unordered(run_job, [(prop, specs[i], outdir, tier) for i in order], chunksize=1)
        for _ in order:
            try:
                r = it.next(timeout=max(1.0, stop_at - time.time()))
            except mp.TimeoutError:
                results.append({'func': '-', 'cfg': {}, 'complete': False, 'stats': {}, 'violations': [],
                                'unconfirmed': [], 'errors': ['time budget of the whole check used up'],
                                'unknowns': [], 'msgs': {}, 'validated': 0, 'mismatch': [], 'n_mismatch': 0,
                                'samples': [], 'wall': 0, 'cuts': {}, 'covered': [], 'required': [], 'cross': {},
                                'partial_why': {}})
                break
            if r['complete'] and not r['violations'] and not r['stats'].get('completed'):
                r['errors'].append(f"vacuous: no path of {r['func']} {r['cfg']} was completed within the bounds")
            results.append(r)
            if a.v:
                s = r['stats']
                print(f"  {r['func']} {r['cfg']} complete={r['complete']} paths={s.get('paths')} "
                      f"done={s.get('completed')} cut={s.get('bound_cut')} q={s.get('queries')} "
                      f"checks={s.get('checks')} val={r['validated']} mism={r['n_mismatch']} partial={s.get('partial')} "
                      f"unk={s.get('unknown')} wall={r['wall']:.1f} viol={len(r['violations'])} "
                      f"unconf={len(r['unconfirmed'])} err={len(r['errors'])}", flush=True)
                for k in ('errors', 'unconfirmed', 'mismatch', 'unknowns'):
                    for x in r[k][:2]:
                        print('     ', k, x)
            if r['violations'] and not known(prop, r['violations'][0]):
                break
        pool.terminate()
    sys.exit(conclude(prop, tier, specs, results, t0, mod, a))


def findings():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'known': [], 'fixed': []}


def known(prop, v):
    for f in findings()['known']:
        if f['property'] == prop and f['harness'] == v['harness'] and f.get('msg', '') in v['msg'] and \
                all(v['cfg'].get(k) == x for k, x in f.get('cfg', {}).items()):
            return f
    return None


def conclude(prop, tier, specs, results, t0, mod, a):
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    viol = [v for r in results for v in r['violations']]
    unk = [v for v in viol if not known(prop, v)]
    kn = [v for v in viol if known(prop, v)]
    unconf = [u for r in results for u in r['unconfirmed']]
    errors = [e for r in results for e in r['errors']]
    mism = sum(r['n_mismatch'] for r in results)
    cross = {}
    for r in results:
        for k, v in r['cross'].items():
            cross[k] = cross.get(k, 0) + v
    msgs = {}
    for r in results:
        for k, v in r['msgs'].items():
            msgs[k] = msgs.get(k, 0) + v
    completed = tot.get('completed', 0)
    validated = sum(r['validated'] for r in results)
    incomplete = [r for r in results if not r['complete'] and not r['violations']]
    cuts = {}
    for r in results:
        for k, v in r['cuts'].items():
            cuts[k] = cuts.get(k, 0) + v
    cov = {
        'states': tot.get('paths', 0),
        'transitions': tot.get('decisions', 0),
        'traces_validated_against_impl': validated,
        'samples': [s for r in results for s in r['samples']][:4] or [{'cfg': specs[0]['cfg']}],
        'explanation': 'states = symbolic paths of the real code explored (each covers every input satisfying its path '
                       'condition); transitions = solver-decided branch points; traces_validated_against_impl = paths '
                       'whose model was re-run on the unpatched code with identical observations.',
        'method': 'symbolic execution of /repo source (AST loaded at run time) + z3; candidates replayed on the real '
                  'code before being reported',
        'functions_encoded': getattr(mod, 'FUNCTIONS', []),
        'source_files_loaded': encoded_functions(),
        'bounds': getattr(mod, 'BOUNDS', ''),
        'jobs': [{'harness': s['func'], 'cfg': s['cfg']} for s in specs],
        'jobs_complete': sum(1 for r in results if r['complete']),
        'jobs_total': len(specs),
        'paths_completed': completed,
        'paths_infeasible': tot.get('aborted', 0),
        'paths_cut_at_bound': tot.get('bound_cut', 0),
        'cut_reasons': cuts,
        'solver_queries': tot.get('queries', 0),
        'solver_seconds': round(tot.get('solver_s', 0.0), 2),
        'assertions_checked': tot.get('checks', 0),
        'assertions_discharged_by_solver': tot.get('checks_unsat', 0),
        'assertions_true_by_simplification': tot.get('checks_trivial', 0),
        'solver_unknown': tot.get('unknown', 0),
        'assertions': msgs,
        'reachability_witnesses': {'required': sum(len(r['required']) for r in results),
                                   'reached': sum(len(set(r['covered']) & set(r['required'])) for r in results)},
        'concretised_inexactly': tot.get('partial', 0),
        'second_solver': cross,
        'unconfirmed_candidates': unconf[:5],
        'encoding_mismatches': mism,
        'inconclusive': errors[:5],
    }
    if incomplete:
        cov['incomplete_jobs'] = [{'harness': r['func'], 'cfg': r['cfg'], 'paths': r['stats'].get('paths')}
                                  for r in incomplete][:20]
    ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
          'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2),
          'violations': len(unk)}
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{prop} [{tier}] jobs {cov["jobs_complete"]}/{len(specs)} complete, paths {tot.get("paths", 0)} '
          f'(completed {completed}, cut {tot.get("bound_cut", 0)}), queries {tot.get("queries", 0)}, '
          f'assertions {tot.get("checks", 0)}, validated {validated}, solver {tot.get("solver_s", 0):.1f}s, '
          f'wall {time.time() - t0:.1f}s')
    for v in kn:
        print(f"KNOWN-FINDING: property={prop} {known(prop, v)['what']}")
    if unk:
        for v in unk[:3]:
            print(f"  violated: {v['msg']}  harness={v['harness']} cfg={v['cfg']} inputs={v['inputs']}")
        print(f"VIOLATION property={prop} replay={unk[0]['replay']}")
        return 1
    if cross.get('disagree'):
        print('ERROR: solvers disagree')
        return 3
    if unconf or mism:
        for u in unconf[:3]:
            print('UNCONFIRMED candidate (not reproduced on the real code):', u)
        for r in results:
            for x in r['mismatch'][:1]:
                print('ENCODING MISMATCH', r['func'], r['cfg'], str(x)[:1500])
    for e in errors[:3]:
        print('INCONCLUSIVE:', e)
    if not completed or (unconf and len(unconf) >= max(1, completed)):
        print('ERROR: nothing decided')
        return 2
    if incomplete:
        print(f'note: {len(incomplete)} job(s) not exhausted; the property held on everything explored')
    if mism or unconf or tot.get('unknown', 0) or tot.get('partial', 0):
        print('note: inconclusive parts:', {'unconfirmed': len(unconf), 'mismatch': mism,
                                            'solver_unknown': tot.get('unknown', 0),
                                            'inexact': tot.get('partial', 0)})
    return 0


if __name__ == '__main__':
    main()
