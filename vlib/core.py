"""Shared machinery: generation (Hypothesis), scheduling over processes,
counting, shrinking, replay files, evidence."""
import sys
import os
import json
import time
import hashlib
import importlib
import importlib.util
import traceback
import warnings
import signal
import glob

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get('_VERIF_SCRATCH', '/tmp')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'


def _import_hypothesis():
    """Hypothesis is not installed in the project's interpreter: borrow it
    from the tooling environment (same Python version), without letting any
    other package of that environment shadow or extend the project's own."""
    try:
        import hypothesis                                   # noqa
        import hypothesis.strategies                        # noqa
        return
    except ImportError:
        pass
    sys.path.append(VT_SITE)
    try:
        import hypothesis                                   # noqa
        import hypothesis.strategies                        # noqa
        return
    except ImportError:
        pass
    finally:
        sys.path.remove(VT_SITE)
    for pat in ('hypothesis-*.whl', 'sortedcontainers-*.whl', 'attrs-*.whl'):
        sys.path.extend(glob.glob(os.path.join(WHEELS, pat)))
    import hypothesis                                       # noqa
    import hypothesis.strategies                            # noqa


_import_hypothesis()
import hypothesis                                           # noqa: E402
from hypothesis import strategies as st                     # noqa: E402

sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np                                          # noqa: E402
np.seterr(all='ignore')

TIER = os.environ.get('VERIF_TIER', 'quick')
# multiple of the per-sub-check numbers of cases and generation times used by
# the quick tier
QSCALE = float(os.environ.get('VERIF_QSCALE', '2'))
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
NPROC = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))


class Violation(AssertionError):
    """The oracle rejected what the code did."""


class Skip(Exception):
    """The case is outside the property's domain (counted, never a failure)."""


class T(object):
    """Handed to every body; collects labels and raises Violations."""

    def __init__(self):
        self.labels = {}
        self.nt = False

    def label(self, name, on=True):
        if on:
            self.labels[name] = self.labels.get(name, 0) + 1

    def nontrivial(self, on=True):
        if on:
            self.nt = True

    def skip(self, why=''):
        raise Skip(why)

    def check(self, cond, msg='', *args):
        if not bool(cond):
            raise Violation(msg % args if args else str(msg))

    def eq(self, a, b, msg=''):
        if not (a == b):
            raise Violation('%s: got %r, expected %r' % (msg, a, b))

    def finite(self, a, msg=''):
        a = np.asarray(a)
        if a.dtype.kind in 'fc' and not np.all(np.isfinite(a)):
            raise Violation('%s: non-finite values' % msg)

    def same(self, a, b, msg=''):
        """Exact equality of arrays (shape and values; NaN equals NaN)."""
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            raise Violation('%s: shape %s, expected %s' % (msg, a.shape, b.shape))
        if not np.array_equal(a, b, equal_nan=(a.dtype.kind in 'fc' and
                                               b.dtype.kind in 'fc')):
            d = np.flatnonzero(~np.asarray(a == b).ravel())
            k = d[0] if d.size else 0
            raise Violation('%s: %d of %d elements differ (first %d: %r vs %r)' % (
                msg, d.size, a.size, k, a.ravel()[k] if a.size else None,
                b.ravel()[k] if b.size else None))

    def close(self, a, b, rtol=1e-9, atol=None, msg='', shape=True):
        """Norm-wise closeness: max|a-b| <= atol + rtol*max(|a|,|b|)."""
        a = np.asarray(a)
        b = np.asarray(b)
        if shape and a.shape != b.shape:
            raise Violation('%s: shape %s, expected %s' % (msg, a.shape, b.shape))
        if a.size == 0 and b.size == 0:
            return
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not (fa.all() and fb.all()):
            if np.array_equal(a, b, equal_nan=True):
                return
            raise Violation('%s: non-finite values (%d, expected %d)' % (
                msg, (~fa).sum(), (~fb).sum()))
        scale = max(np.abs(a).max(), np.abs(b).max())
        if atol is None:
            atol = rtol * 1e-3
        err = np.abs(a - b).max()
        if not err <= atol + rtol * scale:
            raise Violation('%s: max difference %.3g (scale %.3g, rtol %.1g, atol %.1g)' % (
                msg, err, scale, rtol, atol))


class Sub(object):
    def __init__(self, name, strat, body, quick, thorough, shards, budget, doc):
        self.name = name
        self.strat = strat
        self.body = body
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.budget = budget
        self.doc = doc


class Check(object):
    """One property's check: a list of sub-checks."""

    def __init__(self, pid, rule, assumptions=(), scale=1):
        self.pid = pid
        self.scale = scale          # further multiple of the quick tier (cheap checks)
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = []
        self.known = []

    def sub(self, strat, quick=200, thorough=None, shards=1, budget=40, name=None):
        """Decorator registering a sub-check.  `quick`/`thorough` are numbers
        of generated cases (split over `shards` processes); `budget` is the
        generation time (s, quick tier) after which a shard stops drawing new
        cases (never a failure)."""
        def deco(fn):
            self.subs.append(Sub(name or fn.__name__, strat, fn, quick,
                                 thorough or quick * 20, shards, budget,
                                 (fn.__doc__ or '').strip()))
            return fn
        return deco

    def known_finding(self, fid, text):
        """Decorator: fn(t) must raise (Violation or error) while the listed
        defect is present."""
        def deco(fn):
            self.known.append((fid, text, fn))
            return fn
        return deco


# ----------------------------------------------------------------------
# array generation helpers

KINDS = ('normal', 'smallint', 'sparse', 'const', 'zeros', 'big', 'tiny', 'uniform')


def seeds():
    return st.integers(0, 2**31 - 1)


def arrspec(kinds=('normal', 'normal', 'smallint', 'sparse', 'uniform')):
    return st.fixed_dictionaries({'seed': seeds(), 'kind': st.sampled_from(kinds)})


def mkarr(spec, shape, dtype='float64', salt=0):
    """Deterministic array from a spec {'seed','kind'}."""
    rs = np.random.RandomState((spec['seed'] * 7919 + salt * 104729 + 17) % (2**32))
    kind = spec.get('kind', 'normal')
    dt = np.dtype(dtype)
    shape = tuple(int(s) for s in shape)

    def one():
        if kind == 'normal':
            return rs.randn(*shape)
        if kind == 'uniform':
            return rs.rand(*shape)
        if kind == 'smallint':
            return rs.randint(-3, 4, size=shape).astype(float)
        if kind == 'sparse':
            return rs.randn(*shape) * (rs.rand(*shape) < 0.4)
        if kind == 'const':
            return np.full(shape, rs.randn())
        if kind == 'zeros':
            return np.zeros(shape)
        if kind == 'big':
            return 1e3 * rs.randn(*shape)
        if kind == 'tiny':
            return 1e-3 * rs.randn(*shape)
        raise ValueError(kind)
    a = np.asarray(one())
    if dt.kind == 'c':
        a = a + 1j * np.asarray(one())
    return np.asarray(a).astype(dt)


def rng(seed, salt=0):
    return np.random.RandomState((seed * 7919 + salt * 104729 + 17) % (2**32))


# ----------------------------------------------------------------------

def jdump(o):
    def dflt(x):
        if isinstance(x, np.integer):
            return int(x)
        if isinstance(x, np.floating):
            return float(x)
        if isinstance(x, np.ndarray):
            return x.tolist()
        return repr(x)
    return json.dumps(o, sort_keys=True, default=dflt)


CASE_CPU_S = 150


def _on_cpu_limit(signum, frame):
    raise Violation('no result within %d s of CPU time' % CASE_CPU_S)


def run_body(sub, case):
    """Run a body once. Returns (status, message, T).  A case that burns
    CASE_CPU_S seconds of CPU time (hundreds of times what any case needs)
    is a failure to return; CPU time does not depend on machine load."""
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        return _run_body(sub, case)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _run_body(sub, case):
    t = T()
    try:
        # every body sees the same ambient random state
        np.random.seed(12345)
        sub.body(json.loads(jdump(case)), t)
        return 'ok', '', t
    except Skip as e:
        return 'skip', str(e), t
    except Violation as e:
        return 'fail', str(e), t
    except (MemoryError, KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [f for f in tb if '/sporco/' in f.filename]
        f = (loc or tb)[-1]
        return 'fail', 'exception %s: %s (at %s:%s in %s)' % (
            type(e).__name__, str(e)[:300],
            os.path.relpath(f.filename, REPO) if loc else os.path.basename(f.filename),
            f.lineno, f.name), t


def sub_seed(pid, name, shard):
    h = hashlib.sha256(('%d/%s/%s/%d' % (SEED, pid, name, shard)).encode()).hexdigest()
    return int(h[:12], 16)


def run_job(check, sub, shard, nshards, nex, budget):
    """Run one shard of a sub-check under Hypothesis; returns a dict."""
    res = dict(sub=sub.name, shard=shard, evaluations=0, skipped=0, nontrivial=[],
               labels={}, samples=[], failure=None, error=None, budget_hit=False)
    seen = set()
    state = dict(fail=None, tfail=None)
    t0 = time.time()
    shrink_budget = 20.0 if TIER == 'quick' else 90.0

    def body(case):
        if state['fail'] is None:
            if time.time() - t0 > budget:
                res['budget_hit'] = True
                return
        elif time.time() - state['tfail'] > shrink_budget:
            return
        status, msg, t = run_body(sub, case)
        if state['fail'] is None:
            res['evaluations'] += 1
            for k in t.labels:
                res['labels'][k] = res['labels'].get(k, 0) + 1
            if status == 'skip':
                res['skipped'] += 1
            elif t.nt:
                js = jdump(case)
                h = hashlib.sha1(js.encode()).hexdigest()[:16]
                if h not in seen:
                    seen.add(h)
                    if len(res['samples']) < 2:
                        res['samples'].append(json.loads(js))
        if status == 'fail':
            if state['fail'] is None:
                state['tfail'] = time.time()
            state['fail'] = (json.loads(jdump(case)), msg)
            raise Violation(msg)

    test = hypothesis.given(sub.strat)(body)
    test = hypothesis.settings(
        max_examples=nex, deadline=None, database=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        suppress_health_check=list(hypothesis.HealthCheck),
        phases=[hypothesis.Phase.generate, hypothesis.Phase.shrink],
        verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(sub_seed(check.pid, sub.name, shard))(test)
    try:
        test()
    except BaseException as e:
        if state['fail'] is None:
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
    if state['fail'] is not None:
        res['failure'] = dict(case=state['fail'][0], message=state['fail'][1])
    res['nontrivial'] = sorted(seen)
    res['wall'] = time.time() - t0
    return res


def load_check(pid):
    mod = importlib.import_module('checks.' + pid.lower())
    return mod.CHECK


def fork_jobs(jobs, fn, nproc, hard_limit):
    """Run fn(job) for every job, each in its own forked process, at most
    nproc at a time; results come back through files."""
    results = [None] * len(jobs)
    running = {}
    nxt = 0
    t0 = time.time()
    outdir = os.path.join(SCRATCH, 'jobs%d' % os.getpid())
    os.makedirs(outdir, exist_ok=True)
    stop = False
    while nxt < len(jobs) or running:
        while nxt < len(jobs) and len(running) < nproc and not stop:
            path = os.path.join(outdir, '%d.json' % nxt)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    dn = os.open(os.path.join(outdir, '%d.out' % nxt),
                                 os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    r = fn(jobs[nxt])
                    with open(path + '.tmp', 'w') as f:
                        f.write(jdump(r))
                    os.rename(path + '.tmp', path)
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            running[pid] = nxt
            nxt += 1
        if stop and not running:
            break
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid in running:
            k = running.pop(pid)
            path = os.path.join(outdir, '%d.json' % k)
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if os.path.exists(path):
                with open(path) as f:
                    results[k] = json.load(f)
            else:
                try:
                    with open(os.path.join(outdir, '%d.out' % k)) as f:
                        out = f.read()[-2000:]
                except OSError:
                    out = ''
                results[k] = dict(error='worker ended with status %d: %s' % (status, out))
        else:
            time.sleep(0.02)
        if time.time() - t0 > hard_limit and not stop:
            stop = True
            for p in list(running):
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    pass
    return results


def main(argv):
    if argv and argv[0] == '--selftest':
        import sporco
        import sporco.admm.cbpdn                                # noqa
        print('hypothesis', hypothesis.__version__, 'numpy', np.__version__,
              'sporco', os.path.dirname(sporco.__file__))
        return 0 if sporco.__file__.startswith(REPO) else 2
    pid = argv[0]
    only = None
    replay = None
    if '--only' in argv:
        only = argv[argv.index('--only') + 1].split(',')
    if '--replay' in argv:
        replay = argv[argv.index('--replay') + 1]
    t0 = time.time()
    try:
        import sporco
        if not os.path.abspath(sporco.__file__).startswith(os.path.join(REPO, '')):
            print('sporco imported from', sporco.__file__)
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    try:
        check = load_check(pid)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        traceback.print_exc()
        # the library itself failing to import is a (total) loss of behaviour,
        # but it is not this property's oracle that saw it
        return 2
    if replay is not None:
        with open(replay) as f:
            rec = json.load(f)
        sub = [s for s in check.subs if s.name == rec['sub']][0]
        status, msg, _ = run_body(sub, rec['case'])
        print('%s: %s' % (status, msg))
        if status == 'fail':
            print('VIOLATION property=%s replay=%s' % (pid, replay))
            return 1
        return 0

    subs = [s for s in check.subs if only is None or s.name in only]
    quick = TIER == 'quick'
    qscale = QSCALE * check.scale
    jobs = []
    for s in subs:
        n = int(s.quick * qscale) if quick else s.thorough
        sh = max(1, min(min(8, 2 * s.shards) if quick else max(s.shards, 8), n))
        for k in range(sh):
            jobs.append((s, k, sh, max(1, (n + sh - 1) // sh),
                         s.budget * qscale * 3 if quick else s.budget * 30))
    # longest first (by budget) keeps the processes busy
    jobs.sort(key=lambda j: (-j[4], j[0].name, j[1]))
    hard = 780 if quick else 6 * 3600
    results = fork_jobs(jobs, lambda j: run_job(check, *j), NPROC, hard)

    ev = 0
    nts = set()
    labels = {}
    skipped = 0
    samples = []
    persub = {}
    failures = []
    errors = []
    unfinished = 0
    for j, r in zip(jobs, results):
        if r is None:
            unfinished += 1
            continue
        if r.get('error'):
            errors.append('%s[%d]: %s' % (j[0].name, j[1], r['error']))
            if 'evaluations' not in r:
                continue
        ev += r['evaluations']
        skipped += r['skipped']
        for h in r['nontrivial']:
            nts.add((r['sub'], h))
        for k, v in r['labels'].items():
            kk = r['sub'] + ':' + k
            labels[kk] = labels.get(kk, 0) + v
        ps = persub.setdefault(r['sub'], dict(evaluations=0, skipped=0, nontrivial=0,
                                              budget_hit=0, wall=0.0))
        ps['evaluations'] += r['evaluations']
        ps['skipped'] += r['skipped']
        ps['nontrivial'] += len(r['nontrivial'])
        ps['budget_hit'] += int(r['budget_hit'])
        ps['wall'] = round(ps['wall'] + r['wall'], 2)
        if r['shard'] == 0:
            for s in r['samples'][:1]:
                samples.append(dict(sub=r['sub'], case=s))
        if r.get('failure'):
            failures.append((r['sub'], r['failure']))

    known_lines = []
    for fid, text, fn in check.known:
        t = T()
        try:
            fn(t)
        except (Violation, Exception):
            known_lines.append('KNOWN-FINDING: property=%s %s' % (pid, text))
    for ln in known_lines:
        print(ln)

    lines = []
    if failures:
        rdir = os.path.join(HERE, 'replays')
        os.makedirs(rdir, exist_ok=True)
        best = {}
        for name, f in failures:
            k = (name,)
            if k not in best or len(jdump(f['case'])) < len(jdump(best[k]['case'])):
                best[k] = f
        for (name,), f in sorted(best.items()):
            h = hashlib.sha1(jdump(f['case']).encode()).hexdigest()[:8]
            path = os.path.join(rdir, '%s_%s_%s.json' % (pid, name, h))
            with open(path, 'w') as fh:
                fh.write(json.dumps(dict(property=pid, sub=name, case=f['case'],
                                         message=f['message'],
                                         how='python3 run.py %s --replay %s' % (pid, path)),
                                    indent=1) + '\n')
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s: %s' % (name, f['message']))
            print('    case %s' % jdump(f['case'])[:1500])
    if only is None:
        edir = os.path.join(HERE, 'evidence')
        os.makedirs(edir, exist_ok=True)
        doc = dict(
            property=pid, tier=TIER, seed=SEED, level='exploration',
            coverage=dict(evaluations=ev, distinct_nontrivial=len(nts),
                          rule=check.rule, samples=samples[:12],
                          skipped=skipped, sub_checks=persub, labels=labels,
                          unfinished_shards=unfinished, known_findings=known_lines),
            assumptions=check.assumptions, wall_s=round(time.time() - t0, 2),
            violations=len(lines))
        with open(os.path.join(edir, pid + '.json'), 'w') as f:
            f.write(json.dumps(doc, indent=1) + '\n')
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %d skipped, %d violations, %.1f s'
          % (pid, TIER, SEED, ev, len(nts), skipped, len(lines), time.time() - t0))
    if only is not None or os.environ.get('VERIF_VERBOSE'):
        for k in sorted(persub):
            print('   ', k, persub[k])
        for k in sorted(labels):
            print('      ', k, labels[k])
    for e in errors:
        print('ERROR in check: ' + e)
    if lines:
        for ln in lines:
            print(ln)
        return 1
    if errors:
        return 2
    return 0


def stdopt(opts, cls, base):
    """Options object of a solver; 'none' and 'default' stand for no options
    object and for one constructed without arguments."""
    if opts == 'none':
        return None
    if opts == 'default':
        return cls()
    return cls(dict(base(), **(opts or {})))
