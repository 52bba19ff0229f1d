"""Engine for the property checks.

A *property* (C01, ...) is a set of *sub-checks*.  Each sub-check is a Hypothesis
strategy producing a plain JSON-able case plus a body that builds the inputs from the
case, runs the code in /repo and compares with an oracle.  The engine

* drives every sub-check with Hypothesis, seeded from VERIF_SEED only (no database, no
  deadline), in a pool of worker processes;
* separates violations (oracle mismatch, or an exception whose traceback passes through
  the code under test, on an input it has to accept) from harness errors (exit 2);
* lets Hypothesis shrink a failing case and writes it as a replay file that
  `replay.py` re-runs without Hypothesis;
* counts what was generated and writes evidence/<id>.json.
"""
import os
for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ['TQDM_DISABLE'] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
import sys
sys.dont_write_bytecode = True
import atexit
import collections
import contextlib
import hashlib
import importlib.machinery
import io
import json
import shutil
import signal
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get('XMPS_REPO', '/repo'))
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_ALLOWED = {'hypothesis', '_hypothesis_globals', '_hypothesis_ftz_detector',
            'sortedcontainers', 'attr', 'attrs'}


class _Finder:
    """expose only Hypothesis and its dependencies from the tooling venv"""
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in _ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [_VT])
        return None


sys.meta_path.append(_Finder)

# a scratch directory of our own: the package writes there (matplotlib cache, pyximport
# build dir, files the persistence checks store) and never in /repo or the home directory
_CWD = os.getcwd()
SCRATCH = tempfile.mkdtemp(prefix='xmps-pbt-')
_OWNER = os.getpid()


@atexit.register
def _cleanup():
    if os.getpid() == _OWNER:
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)


os.environ['HOME'] = SCRATCH
os.environ['MPLCONFIGDIR'] = os.path.join(SCRATCH, 'mpl')
os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = os.path.join(SCRATCH, 'hypothesis')
os.chdir(SCRATCH)
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
np.seterr(all='ignore')
import hypothesis  # noqa: E402
from hypothesis import strategies as st  # noqa: E402
from hypothesis.internal.conjecture import engine as _engine  # noqa: E402
_engine.MAX_SHRINKING_SECONDS = 40


def import_repo():
    with contextlib.redirect_stdout(io.StringIO()):
        import xmps
        import xmps.fMPS, xmps.fTDVP, xmps.iMPS, xmps.iTDVP, xmps.fPEPS  # noqa
        import xmps.tensor, xmps.ncon, xmps.spin, xmps.Hamiltonians  # noqa
        import xmps.iOptimize, xmps.mps_examples, xmps.peps_tools, xmps.svd_robust  # noqa
        import xmps.tests  # noqa
    f = os.path.realpath(xmps.__file__)
    if not f.startswith(REPO + '/'):
        raise HarnessError('xmps imported from %s, not from %s' % (f, REPO))


class Violation(AssertionError):
    pass


class NoReturn(Violation):
    pass


SHRINK_S = 60


class HarnessError(Exception):
    pass


class CaseTimeout(BaseException):
    pass


class Ctx:
    """what a body may say about its case"""
    def __init__(self):
        self.labels = collections.Counter()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels[str(n)] += 1

    def interesting(self, cond=True):
        self.nontrivial = self.nontrivial or bool(cond)

    # ---- assertions -------------------------------------------------------------
    def require(self, cond, msg, **info):
        if not cond:
            raise Violation(msg + (' ' + _fmt(info) if info else ''))

    def close(self, got, want, msg, rtol=1e-7, atol=1e-9, scale=None):
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            raise Violation('%s: shape %s, expected %s' % (msg, got.shape, want.shape))
        if got.size == 0:
            return
        got = got.astype(complex)
        want = want.astype(complex)
        if not np.isfinite(got).all():
            raise Violation('%s: non-finite result %s (expected %s)'
                            % (msg, _short(got), _short(want)))
        s = np.abs(want).max() if scale is None else scale
        err = np.abs(got - want).max()
        if not err <= atol + rtol * s:
            raise Violation('%s: differs by %.3g (scale %.3g): got %s, expected %s'
                            % (msg, err, s, _short(got), _short(want)))

    def same_ray(self, got, want, msg, tol=1e-7):
        """equal as rays (up to a nonzero scalar)"""
        got, want = np.asarray(got).reshape(-1), np.asarray(want).reshape(-1)
        if got.shape != want.shape:
            raise Violation('%s: vector of length %s, expected %s'
                            % (msg, got.shape, want.shape))
        ng, nw = np.linalg.norm(got), np.linalg.norm(want)
        if not np.isfinite(ng) or ng < 1e-12:
            raise Violation('%s: represented vector vanished or is not finite (norm %s)' % (msg, ng))
        g, w = got / ng, want / nw
        dist = np.linalg.norm(g - w * np.vdot(w, g))
        if not dist <= tol:
            raise Violation('%s: different ray, sin(angle)=%.3g' % (msg, dist))

    def raises(self, exc, fn, msg):
        try:
            fn()
        except exc:
            return
        raise Violation(msg + ': accepted, expected %s' % (exc,))


def _short(a):
    s = np.array2string(np.asarray(a).reshape(-1)[:6], precision=6)
    return s.replace('\n', ' ')


def _fmt(info):
    return ' '.join('%s=%s' % (k, _short(v) if isinstance(v, np.ndarray) else v)
                    for k, v in info.items())


class Sub:
    def __init__(self, name, strategy, body, quick, thorough, rule, timeout):
        self.name, self.strategy, self.body = name, strategy, body
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.timeout = timeout


class Prop:
    def __init__(self, pid, rule):
        self.id = pid
        self.rule = rule
        self.subs = collections.OrderedDict()
        self.probes = collections.OrderedDict()

    def sub(self, name, strategy, quick=100, thorough=None, rule='', timeout=120):
        def deco(body):
            assert name not in self.subs
            self.subs[name] = Sub(name, strategy, body, quick,
                                  thorough or quick * 12, rule, timeout)
            return body
        return deco

    def probe(self, finding):
        """a recorded known finding: body returns True while the recorded input still fails"""
        def deco(body):
            self.probes[finding] = body
            return body
        return deco


def _through_repo(tb):
    while tb is not None:
        f = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if f.startswith(os.path.join(REPO, 'xmps') + os.sep):
            return True
        tb = tb.tb_next
    return False


def run_body(sub, case):
    """Run one case.  Raises Violation or HarnessError."""
    ctx = Ctx()
    np.random.seed(int(case.get('np', 0)) if isinstance(case, dict) else 0)

    def on_alarm(*_):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, sub.timeout)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter('ignore')
            sub.body(case, ctx)
    except (Violation, HarnessError):
        raise
    except hypothesis.errors.HypothesisException:
        raise
    except CaseTimeout:
        # no case comes near its time limit on a tree that works: the code does not return
        raise NoReturn('the code under test did not return within %ss' % sub.timeout)
    except MemoryError:
        raise HarnessError('out of memory on %s' % json.dumps(case))
    except Exception as e:
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
        if _through_repo(e.__traceback__):
            raise Violation('the code under test raised %s: %s' % (type(e).__name__, e)) from e
        # a result of the wrong shape or type breaks the oracle's arithmetic, which never
        # happens on well-formed results; anything else is a mistake of the harness
        if isinstance(e, (ValueError, IndexError, np.linalg.LinAlgError)) or (
                isinstance(e, (TypeError, AttributeError)) and 'NoneType' in str(e)):
            raise Violation('malformed result, %s: %s' % (type(e).__name__, e)) from e
        raise HarnessError(text)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return ctx


def run_sub(prop, name, tier, seed, budget):
    """Run one sub-check under Hypothesis.  Returns a plain dict."""
    sub = prop.subs[name]
    n = int((sub.quick if tier == 'quick' else sub.thorough)
            * float(os.environ.get('VERIF_SCALE', 4)))
    out = dict(name=name, planned=n, evaluations=0, nontrivial=0, skipped=0, labels={},
               samples=[], failure=None, error=None, rule=sub.rule)
    seen, labels = set(), collections.Counter()
    state = dict(fail=None, failed=False)
    t0 = time.time()

    def test(case):
        if time.time() - t0 > budget and not state['failed']:
            out['skipped'] += 1
            return
        if state['failed'] and time.time() > state['until']:
            # time to shrink is up: the smallest failing case so far stands
            if case == state['fail'][0]:
                raise Violation(state['fail'][1])
            return
        if not state['failed']:
            out['evaluations'] += 1
        try:
            ctx = run_body(sub, case)
        except Violation as e:
            if not state['failed']:
                state['until'] = time.time() + (0 if isinstance(e, NoReturn) else SHRINK_S)
            state['failed'] = True
            state['fail'] = (case, str(e))
            raise
        if state['failed']:
            return
        labels.update(ctx.labels)
        if ctx.nontrivial:
            h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()
            if h not in seen:
                seen.add(h)
                if len(out['samples']) < 3:
                    out['samples'].append(dict(sub=name, case=case,
                                               labels=sorted(ctx.labels)))
    s = zlib.crc32(('%s/%s/%s' % (prop.id, name, seed)).encode())
    test.__name__ = test.__qualname__ = 'test_' + name
    runner = hypothesis.seed(s)(hypothesis.settings(
        database=None, deadline=None, max_examples=n, print_blob=False,
        report_multiple_bugs=False,
        suppress_health_check=list(hypothesis.HealthCheck))(
            hypothesis.given(sub.strategy)(test)))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runner()
    except Violation:
        pass
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if state['fail'] is None:
            out['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    if state['fail'] is not None:
        case, msg = state['fail']
        out['failure'] = dict(property=prop.id, sub=name, case=case, message=msg, seed=seed)
    out['nontrivial'] = len(seen)
    out['labels'] = dict(labels.most_common(60))
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def load_prop(pid):
    import importlib
    sys.path.insert(0, VERIF)
    import_repo()
    mod = importlib.import_module('checks.' + pid.lower())
    return mod.PROP


def _worker(args):
    pid, name, tier, seed, budget = args
    d = tempfile.mkdtemp(dir=SCRATCH)
    os.chdir(d)
    try:
        return run_sub(load_prop(pid), name, tier, seed, budget)
    finally:
        os.chdir(SCRATCH)
        shutil.rmtree(d, ignore_errors=True)


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings']
            if f['property'] == pid and f['status'] == 'known']


def main(pid):
    import multiprocessing as mp
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        prop = load_prop(pid)
    except Exception as e:
        traceback.print_exc()
        if _through_repo(e.__traceback__):
            print('the package does not import', file=sys.stderr)
        return 2
    budget = float(os.environ.get('VERIF_SUB_BUDGET', 100 if tier == 'quick' else 1500))
    names = [n for n in prop.subs if not os.environ.get('VERIF_ONLY')
             or n in os.environ['VERIF_ONLY'].split(',')]
    jobs = int(os.environ.get('VERIF_JOBS', min(8, os.cpu_count() or 1)))
    ctx = mp.get_context('fork')
    results = []
    try:
        with ProcessPoolExecutor(max_workers=jobs, mp_context=ctx) as ex:
            for r in ex.map(_worker, [(pid, n, tier, seed, budget) for n in names]):
                results.append(r)
    except BrokenProcessPool:
        print('a worker process died', file=sys.stderr)
        return 2
    findings = []
    for f in known_findings(pid):
        body = prop.probes.get(f['id'])
        if body is None:
            print('known finding %s has no probe' % f['id'], file=sys.stderr)
            return 2
        with contextlib.redirect_stdout(io.StringIO()):
            np.random.seed(0)
            still = body()
        if still:
            findings.append(f)
    failures = [r['failure'] for r in results if r['failure']]
    errors = [r for r in results if r['error']]
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=sum(r['evaluations'] for r in results),
                  distinct_nontrivial=sum(r['nontrivial'] for r in results),
                  rule=prop.rule,
                  samples=[s for r in results for s in r['samples'][:2]],
                  sub_checks=[{k: r[k] for k in ('name', 'rule', 'planned', 'evaluations',
                                                 'nontrivial', 'skipped', 'labels', 'wall_s')}
                              for r in results]),
              assumptions=['numpy/scipy dense linear algebra is the reference',
                           'floating-point agreement is judged with the tolerances stated in DESIGN.md'],
              wall_s=round(time.time() - t0, 2), violations=len(failures))
    ev['coverage']['known_findings_seen'] = [f['id'] for f in findings]
    if errors:
        ev['coverage']['harness_errors'] = [r['name'] for r in errors]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for r in results:
        print('%s/%s: %d cases, %d distinct non-trivial, %d skipped, %.1fs%s' % (
            pid, r['name'], r['evaluations'], r['nontrivial'], r['skipped'], r['wall_s'],
            '  FAILED' if r['failure'] else '  ERROR' if r['error'] else ''))
    for f in findings:
        print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    for r in errors:
        print('harness error in %s/%s:\n%s' % (pid, r['name'], r['error']), file=sys.stderr)
    if failures:
        rd = os.path.join(VERIF, 'replays')
        os.makedirs(rd, exist_ok=True)
        for f in failures:
            path = os.path.join(rd, '%s-%s.json' % (pid, f['sub']))
            with open(path, 'w') as fh:
                json.dump(f, fh, indent=1, sort_keys=True)
            print('%s/%s: %s\n  case %s' % (pid, f['sub'], f['message'],
                                            json.dumps(f['case'], sort_keys=True)))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 2 if errors else 0


def replay(path):
    f = json.load(open(path))
    prop = load_prop(f['property'])
    sub = prop.subs[f['sub']]
    try:
        run_body(sub, f['case'])
    except Violation as e:
        print('%s/%s: %s' % (f['property'], f['sub'], e))
        if e.__cause__ is not None:
            traceback.print_exception(e.__cause__)
        print('VIOLATION property=%s replay=%s' % (f['property'], path))
        return 1
    print('replay of %s passes' % path)
    return 0
