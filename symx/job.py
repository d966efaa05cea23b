"""Runs one harness configuration: explores all paths symbolically, replays candidates, validates sampled paths."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback
import z3
from . import core, load, rnd
from .core import Engine, PathAbort, BoundHit, PathTimeout, Budget
from .symctx import SymCtx, StopJob
from .ctx import obs_equal, CheckFailed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
REPLAYER = os.path.join(VERIF, 'symx', 'replayer.py')


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.p = subprocess.Popen([PY, REPLAYER, '--serve'], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True, env=env)

    def run(self, req):
        for _ in range(2):
            if self.p is None or self.p.poll() is not None:
                self.start()
            try:
                self.p.stdin.write(json.dumps(req) + '\n')
                self.p.stdin.flush()
                line = self.p.stdout.readline()
                if line:
                    return json.loads(line)
            except (BrokenPipeError, OSError):
                pass
            self.stop()
        return {'status': 'error', 'msg': 'replayer died', 'observed': {}, 'covered': []}

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None


REPL = Replayer()


class CtxProxy:
    cur = None

    def __getattr__(self, n):
        return getattr(CtxProxy.cur, n, None) if n == 'mode' else getattr(CtxProxy.cur, n)


FAKE = None
SNAP = None


def setup():
    """per process: install the symbolic loader and load the code under test"""
    global FAKE, SNAP
    if FAKE is not None:
        return
    sys.dont_write_bytecode = True
    FAKE = rnd.FakeRandom(CtxProxy())
    load.install({'baumeva': REPO, 'harness': VERIF}, {'random': FAKE})
    for n in list(sys.modules):
        if n.split('.')[0] in ('baumeva', 'harness'):
            del sys.modules[n]
    import baumeva           # noqa: F401
    import pkgutil
    for m in pkgutil.walk_packages(baumeva.__path__, 'baumeva.'):
        importlib.import_module(m.name)
    SNAP = load.snapshot()


def _alarm(*a):
    raise PathTimeout()


class Job:
    def __init__(self, prop, spec, outdir, tier):
        self.prop = prop
        self.spec = spec
        self.module, self.func, self.cfg = spec['module'], spec['func'], spec['cfg']
        self.lim = spec.get('limits', {})
        self.outdir = outdir
        self.tier = tier
        self.covered = set()
        self.required = set()
        self.violations = []
        self.unconfirmed = []
        self.errors = []
        self.unknowns = []
        self.msgs = {}
        self.validated = 0
        self.mismatch = []
        self.scripts = []
        self.samples = []
        self.smt = []
        self.mass = []
        self.mass_bad = []
        self.expected = {}
        self.nq = 0

    def note_check(self, msg):
        self.msgs[msg] = self.msgs.get(msg, 0) + 1

    def note_unknown(self, msg):
        self.unknowns.append(msg)

    def sample_query(self, eng, e):
        self.nq += 1
        if self.tier == 'thorough' and (self.nq in (1, 7, 50, 300)):
            s = z3.Solver()
            for c in eng.pc:
                s.add(c)
            s.add(z3.Not(e))
            self.smt.append(s.to_smt2())

    def req(self, inputs, draws, timeout=20):
        return {'module': self.module, 'func': self.func, 'cfg': self.cfg, 'inputs': inputs, 'draws': draws,
                'timeout': timeout, 'property': self.prop}

    def _with_model(self, ctx, model):
        try:
            return ctx.script(model)
        except Exception as e:
            self.errors.append(f'model extraction: {e}')
            return None

    def candidate(self, ctx, kind, msg, extra, model, exc=None):
        """a counterexample of the encoding: replay on the real code; report only what reproduces"""
        eng = ctx.eng
        tried = []
        for attempt in range(12):
            sc = self._with_model(ctx, model)
            if sc is None:
                break
            inputs, draws = sc
            r = REPL.run(self.req(inputs, draws, 10 if kind == 'hang' else 20))
            ok = r['status'] in ('violation', 'exception') or (kind == 'hang' and r['status'] == 'timeout')
            tried.append((r['status'], r.get('msg')))
            if ok:
                self.report(kind, r.get('msg') or msg, inputs, draws)
                raise StopJob()
            # another model: move away from this one on some input
            diff = []
            for n, (k, v) in ctx.vars.items():
                if k != 's':
                    diff.append(v != model.eval(v, model_completion=True))
            if not diff or attempt >= 11:
                break
            eng.solver.push()
            if extra is not None:
                eng.solver.add(extra)
            eng.solver.add(z3.Or(diff) if attempt % 2 == 0 else diff[attempt % len(diff)])
            res = eng.query()
            m2 = eng.solver.model() if res == z3.sat else None
            eng.solver.pop()
            if m2 is None:
                break
            model = m2
        self.unconfirmed.append({'msg': msg, 'kind': kind, 'tried': tried[:3], 'exc': exc})

    def report(self, kind, msg, inputs, draws, **more):
        n = len(os.listdir(self.outdir)) if os.path.isdir(self.outdir) else 0
        os.makedirs(self.outdir, exist_ok=True)
        path = os.path.join(self.outdir, f'{self.func}_{os.getpid()}_{n}.json')
        rec = dict(self.req(inputs, draws), kind=kind, msg=msg, **more)
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1)
        try:
            p = subprocess.run([PY, REPLAYER, path], capture_output=True, text=True, timeout=400,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        except subprocess.TimeoutExpired:
            self.unconfirmed.append({'msg': msg, 'kind': kind, 'tried': [('fresh-process', 'the replay took too long')]})
            return
        if p.returncode == 1:
            self.violations.append({'msg': msg, 'kind': kind, 'replay': path, 'harness': self.func, 'cfg': self.cfg,
                                    'inputs': inputs})
        else:
            self.unconfirmed.append({'msg': msg, 'kind': kind, 'tried': [('fresh-process', p.stdout[-300:])]})

    def run(self):
        t0 = time.time()
        try:
            setup()
            fn = getattr(importlib.import_module(self.module), self.func)
        except Exception as e:
            return self.result(t0, False, error=f'load: {type(e).__name__}: {e}\n{traceback.format_exc()[-800:]}')
        z3.set_param('smt.random_seed', int(os.environ.get('VERIF_SEED', '1')) % 1000)
        eng = Engine(max_paths=self.lim.get('max_paths', 200000), time_budget=self.lim.get('time', 120.0),
                     max_draws=self.lim.get('max_draws', 400), path_time=self.lim.get('path_time', 30.0),
                     max_decisions=self.lim.get('max_decisions', 4000))
        self.eng = eng
        signal.signal(signal.SIGALRM, _alarm)
        import warnings
        warnings.simplefilter('ignore')

        cfg = dict(self.cfg)
        warm = cfg.pop('_warm', None)
        snap = SNAP
        if warm:
            from harness import warm as W
            ctx = SymCtx(eng, self)
            ctx.random = FAKE
            CtxProxy.cur = ctx
            FAKE.reset()
            load.restore(SNAP)
            try:
                W.runs(ctx)
            except Exception:
                pass
            snap = load.snapshot()

        def one():
            ctx = SymCtx(eng, self)
            ctx.random = FAKE
            CtxProxy.cur = ctx
            FAKE.reset()
            load.restore(snap)
            eng.rounding = self.lim.get('rounding', 'real')
            signal.setitimer(signal.ITIMER_REAL, eng.path_time)
            try:
                if warm:
                    W.used(ctx)
                fn(ctx, **cfg)
                signal.setitimer(signal.ITIMER_REAL, 0)
                self.required |= ctx.required
                eng.stats['completed'] += 1
                self.finish_path(ctx)
            except BoundHit as e:
                eng.stats['bound_cut'] += 1
                self.cuts[e.why] = self.cuts.get(e.why, 0) + 1
            except PathAbort:
                eng.stats['aborted'] += 1
            except PathTimeout:
                signal.setitimer(signal.ITIMER_REAL, 0)
                self.timeouts += 1
                try:
                    self.candidate(ctx, 'hang', 'does not terminate', None, eng.model())
                except (PathAbort, z3.Z3Exception):
                    pass
                if self.timeouts >= 2:
                    raise Budget()
            except Exception as e:
                signal.setitimer(signal.ITIMER_REAL, 0)
                tb = traceback.format_exc()[-1500:]
                try:
                    m = eng.model()
                except PathAbort:
                    eng.stats['aborted'] += 1
                    return
                self.candidate(ctx, 'exception', f'{type(e).__name__}: {e}', None, m, exc=tb)
                if len(self.unconfirmed) > 5:
                    raise Budget()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                ctx.unpatch()

        self.timeouts = 0
        self.cuts = {}
        complete = False
        try:
            complete = eng.explore(one)
        except StopJob:
            pass
        except Budget:
            pass
        if complete and not self.violations and not self.unconfirmed and self.expected:
            self.judge_mass()
        if complete and not self.violations and not self.unconfirmed:
            for lab in sorted(self.required - self.covered):
                if eng.stats['partial'] == 0:
                    self.report('unreachable', f'never happens for any draw: {lab}', {}, [], label=lab,
                                scripts=self.scripts)
                    break
        return self.result(t0, complete)

    def add_mass(self, ctx):
        from . import mass
        self.expected.update(ctx.expected)
        try:
            comps = mass.path_measure(ctx.eng.pc, ctx.draw_meta)
        except mass.Unsupported as e:
            self.mass_bad.append(str(e))
            return
        m = 1
        for c in comps:
            m *= c['mass']
        proj = {}
        for k in set(f for (_, _, f, _) in ctx.expected.values() if f):
            try:
                proj[k] = mass.project(comps, k)
            except mass.Unsupported as e:
                self.mass_bad.append(str(e))
                return
        sc = self._with_model(ctx, ctx.eng.model())
        self.mass.append((list(ctx.tallies), m, proj, sc))

    def judge_mass(self):
        from . import mass
        from fractions import Fraction
        if self.mass_bad:
            self.errors.append('mass: ' + self.mass_bad[0])
            return
        total = sum((x[1] for x in self.mass), Fraction(0))
        if not self.eng.stats['bound_cut'] and total != 1:
            self.errors.append(f'mass: the explored paths have total probability {float(total)}')
            return
        for lab, (p, tol, first, given) in sorted(self.expected.items()):
            sel = [x for x in self.mass if lab in x[0]]
            if first:
                def proj(xs):
                    pieces = [pc for x in xs if x[2][first][0] == 'r' for pc in x[2][first][1]]
                    vals = {}
                    for x in xs:
                        if x[2][first][0] == 'i':
                            vals.update(x[2][first][1])
                    return pieces, vals, mass.union_len(pieces) + sum(vals.values(), Fraction(0))
                _, va, got = proj(sel)
                _, vo, other = proj([x for x in self.mass if lab not in x[0]])
                if got + other != 1 or set(va) & set(vo):
                    self.errors.append(f'mass: "{lab}" is not decided by the first {first} draws')
                    return
            elif given:
                den = sum((x[1] for x in self.mass if given in x[0]), Fraction(0))
                if den == 0:
                    continue
                got = sum((x[1] for x in sel if given in x[0]), Fraction(0)) / den
            else:
                got = sum((x[1] for x in sel), Fraction(0))
            self.msgs[f'probability of: {lab}'] = self.msgs.get(f'probability of: {lab}', 0) + 1
            self.eng.stats['checks'] += 1
            alts = [Fraction(x) for x in p] if isinstance(p, (tuple, list)) else [Fraction(p)]
            if all(abs(got - x) > Fraction(tol) for x in alts):
                self.report('mass', f'probability of "{lab}" is {float(got):.6g}, expected '
                            f'{" or ".join("%.6g" % float(x) for x in alts)} (+-{float(tol):.3g})',
                            {}, [], label=lab, p=[str(x) for x in alts], tol=str(Fraction(tol)), got=str(got), first=first or bool(given),
                            scripts=[[x[3], str(x[1]), lab in x[0]] for x in self.mass][:4000])
                return

    def finish_path(self, ctx):
        """reachability witness + validation of the encoding against the real code on this path"""
        eng = ctx.eng
        if ctx.expected:
            self.add_mass(ctx)
        n = eng.stats['completed']
        lim = self.lim.get('validate', 12 if self.tier == 'quick' else 60)
        keep = len(self.scripts) < 3000 and (ctx.required or self.validated < lim)
        if not keep:
            return
        m = eng.model()
        sc = self._with_model(ctx, m)
        if sc is None:
            return
        if ctx.required:
            self.scripts.append(sc)
        if self.validated >= lim or (n > 6 and n % 5 and self.validated > lim // 2):
            return
        r = REPL.run(self.req(*sc))
        if r['status'] in ('violation', 'exception'):
            self.report('check' if r['status'] == 'violation' else 'exception', r.get('msg'), *sc)
            if self.violations:
                raise StopJob()
        if r['status'] == 'ok':
            obs = ctx.obs_under(m)
            if eng.rounding == 'real' or True:
                if not obs_equal(obs, r['observed']):
                    self.mismatch.append({'sym': obs, 'real': r['observed'], 'script': sc})
                    return
            self.validated += 1
            if len(self.samples) < 2:
                self.samples.append({'cfg': self.cfg, 'inputs': sc[0], 'draws': [d[1] for d in sc[1]][:40],
                                     'observed': r['observed']})
        elif r.get('msg') != 'assumption false in replay':      # (a model value that is not a double)
            self.mismatch.append({'status': r['status'], 'msg': r.get('msg'), 'script': sc})

    def result(self, t0, complete, error=None):
        st = dict(self.eng.stats) if hasattr(self, 'eng') else {}
        if error:
            self.errors.append(error)
        x = self.crosscheck() if self.smt else {}
        return {'func': self.func, 'cfg': self.cfg, 'complete': complete, 'stats': st, 'violations': self.violations,
                'unconfirmed': self.unconfirmed, 'errors': self.errors, 'unknowns': self.unknowns, 'msgs': self.msgs,
                'validated': self.validated, 'mismatch': self.mismatch[:3], 'n_mismatch': len(self.mismatch),
                'samples': self.samples, 'wall': time.time() - t0, 'cuts': getattr(self, 'cuts', {}),
                'covered': sorted(self.covered), 'required': sorted(self.required), 'cross': x,
                'partial_why': getattr(getattr(self, 'eng', None), 'partial_why', {})}

    def crosscheck(self):
        """second solver on sampled discharged queries"""
        import shutil
        import tempfile
        exe = shutil.which('cvc5')
        res = {'agree': 0, 'unknown': 0, 'disagree': 0}
        if not exe:
            return res
        for s in self.smt:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + s)
            try:
                p = subprocess.run([exe, '--tlimit=10000', f.name], capture_output=True, text=True, timeout=20)
                o = p.stdout.strip().splitlines()
                if '(error' in p.stdout or not o:
                    res['unknown'] += 1
                elif o[0] == 'unsat':
                    res['agree'] += 1
                elif o[0] == 'sat':
                    res['disagree'] += 1
                else:
                    res['unknown'] += 1
            except subprocess.TimeoutExpired:
                res['unknown'] += 1
            finally:
                os.unlink(f.name)
        return res


def run_job(a):
    prop, spec, outdir, tier = a
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        return Job(prop, spec, outdir, tier).run()
    except MemoryError:
        return {'func': spec['func'], 'cfg': spec['cfg'], 'complete': False, 'stats': {}, 'violations': [],
                'unconfirmed': [], 'errors': ['out of memory'], 'unknowns': [], 'msgs': {}, 'validated': 0,
                'mismatch': [], 'n_mismatch': 0, 'samples': [], 'wall': 0, 'cuts': {}, 'covered': [], 'required': [],
                'cross': {}, 'partial_why': {}}
    except Exception as e:
        return {'func': spec['func'], 'cfg': spec['cfg'], 'complete': False, 'stats': {}, 'violations': [],
                'unconfirmed': [], 'errors': [f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1200:]}'],
                'unknowns': [], 'msgs': {}, 'validated': 0, 'mismatch': [], 'n_mismatch': 0, 'samples': [], 'wall': 0,
                'cuts': {}, 'covered': [], 'required': [], 'cross': {}, 'partial_why': {}}
