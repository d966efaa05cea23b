"""Concrete re-execution on the unpatched code of /repo.

server mode:  replayer.py --serve         one JSON request per line on stdin, one JSON answer per line on stdout
file mode:    replayer.py FILE.json       prints the outcome; exit 1 if the violation reproduces, 0 if not
Only the `random` module is scripted (and what a harness explicitly stubs); no proxies, no AST rewriting.
"""
import io
import contextlib
import importlib
import json
import os
import signal
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, VERIF]

from symx import ctx as C          # noqa: E402
from symx import rnd               # noqa: E402
import random as real_random       # noqa: E402


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


class Proxy:
    """forwards to the context of the current replay"""
    cur = None

    def __getattr__(self, n):
        return getattr(Proxy.cur, n, None) if n == 'mode' else getattr(Proxy.cur, n)


FAKE = rnd.FakeRandom(Proxy())
for _n in rnd.API + ['Random', 'SystemRandom']:
    setattr(real_random, _n, getattr(FAKE, _n))
real_random.FAKE = FAKE


def run(req):
    """one replay; returns a dict"""
    ctx = C.ReplayCtx(req['inputs'], req['draws'])
    ctx.random = FAKE
    Proxy.cur = None
    FAKE.early = []
    FAKE.reset()
    out = io.StringIO()
    res = {}
    signal.signal(signal.SIGALRM, _alarm)
    # processor time, so that a busy or paused machine is not taken for a program that does not end
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, req.get('timeout', 20))
    signal.setitimer(signal.ITIMER_REAL, 200)
    try:
        with contextlib.redirect_stdout(out):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                importlib.import_module('baumeva')
                mod = importlib.import_module(req['module'])
                Proxy.cur = ctx
                cfg = dict(req['cfg'])
                if cfg.pop('_warm', None):
                    from harness import warm
                    try:
                        warm.runs(ctx)
                    except Exception:
                        pass
                    warm.used(ctx)
                getattr(mod, req['func'])(ctx, **cfg)
        res['status'] = 'ok'
    except C.CheckFailed as e:
        res['status'], res['msg'] = 'violation', str(e)
    except C.ReplayMismatch as e:
        res['status'], res['msg'] = 'mismatch', str(e)
    except Timeout:
        res['status'], res['msg'] = 'timeout', 'does not terminate'
    except Exception as e:
        res['status'], res['msg'] = 'exception', f'{type(e).__name__}: {e}'
        res['exc'] = type(e).__name__
        res['tb'] = traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            ctx.unpatch()
        except Exception:
            pass
    res['observed'] = ctx.obs
    res['covered'] = sorted(ctx.covered)
    res['tallies'] = list(ctx.tallies)
    return res


def fresh_modules():
    for n in list(sys.modules):
        if n == 'baumeva' or n.startswith('baumeva.') or n.startswith('harness'):
            del sys.modules[n]


def serve():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        fresh_modules()
        out.write(json.dumps(run(req)) + '\n')
        out.flush()


def main():
    if sys.argv[1] == '--serve':
        serve()
        return
    rec = json.load(open(sys.argv[1]))
    if rec['kind'] == 'unreachable':
        cov = set()
        n = 0
        import time
        t0 = time.time()
        todo = list(rec['scripts'])
        if len(todo) > 400:                        # most telling first: an even spread, then the rest while time allows
            k = len(todo) // 300
            todo = todo[::k] + [x for i, x in enumerate(todo) if i % k]
        for sc in todo:
            if n > 300 and time.time() - t0 > 60:
                break
            fresh_modules()
            r = run(dict(rec, inputs=sc[0], draws=sc[1]))
            if r['status'] in ('violation', 'exception'):
                print('REPRODUCED', r['status'], r.get('msg'))
                sys.exit(1)
            cov |= set(r['covered'])
            n += 1
        if rec['label'] in cov:
            print('NOT REPRODUCED: outcome reachable:', rec['label'])
            sys.exit(0)
        print(f"REPRODUCED: none of the {n} replayed cases (of {len(rec['scripts'])} paths of this configuration) reaches: {rec['label']}")
        sys.exit(1)
    if rec['kind'] == 'mass':
        from fractions import Fraction
        tot, same = Fraction(0), True
        for i, (sc, w, had) in enumerate(rec['scripts']):
            if i < 300:
                fresh_modules()
            r = run(dict(rec, inputs=sc[0], draws=sc[1]))
            if r['status'] != 'ok' or (rec['label'] in r['tallies']) != had:
                same = False
                break
            if had:
                tot += Fraction(w)
        if not rec['first'] and same:
            same = all(abs(tot - Fraction(x)) > Fraction(rec['tol']) for x in rec['p'])
        print(('REPRODUCED: ' if same else 'NOT REPRODUCED: ') + rec['msg'],
              f"({len(rec['scripts'])} path representatives re-run on the real code)")
        sys.exit(1 if same else 0)
    r = run(rec)
    print(json.dumps({k: r[k] for k in r if k not in ('observed', 'covered')}, indent=1))
    print('inputs:', rec['inputs'], 'draws:', rec['draws'], 'cfg:', rec['cfg'])
    bad = r['status'] in ('violation', 'exception') or (rec['kind'] == 'hang' and r['status'] == 'timeout')
    print('REPRODUCED' if bad else 'NOT REPRODUCED', '-', rec['msg'])
    sys.exit(1 if bad else 0)


if __name__ == '__main__':
    main()
