"""P14: interrupting, resuming or pickling a solver does not change its
trajectory."""
import copy
import pickle
import numpy as np
from vlib.core import Check, st, rng, seeds
from vlib import solvers as sv
from vlib import tvm, dupd, densem, dlm
from vlib.statm import grab
from checks import p13
from sporco.admm import ppp
from sporco.pgm import ppp as pppp

CHECK = Check('P14', rule='at least two solve() calls were made, or the solver was pickled or copied between calls, and '
              'the iterates kept changing after the first interruption',
              assumptions=['the reference is one uninterrupted call of the same class with the same options',
                           'a pickled or copied solver may differ from the original by rounding only (array alignment '
                           'selects other FFT code paths): relative tolerance 1e-8, 1e-5 with back-tracking or penalty '
                           'adaptation; consecutive calls on one object must agree exactly',
                           'callbacks are instances of a module-level class, so that they can be pickled'])


class Cap(object):
    """Picklable callback: copies the iterates, stops at given counts."""

    def __init__(self, stops=(), fn=grab):
        self.caps, self.stops, self.fn = [], set(stops), fn

    def __call__(self, obj):
        self.caps.append(self.fn(obj))
        return len(self.caps) in self.stops


def lsnap(b):
    """Iterates of a dictionary learning object."""
    d = {'k': b.j, 'D': np.array(b.getdict(), copy=True), 'C': np.array(b.getcoef(), copy=True)}
    if not hasattr(b, 'mpvar'):
        for p, s in (('x', b.xstep), ('d', b.dstep)):
            for k, v in grab(s).items():
                d[p + k] = v
    return d


OP = st.one_of(st.integers(1, 4).map(lambda n: ['run', n]), st.integers(1, 4).map(lambda n: ['run', n]),
               st.just(['pickle']), st.just(['deepcopy']), st.sampled_from([['fork', 'p'], ['fork', 'd'], ['forkfirst', 'p']]),
               st.just(['poke']))
OPS = st.lists(OP, min_size=2, max_size=5)
STOPS = st.lists(st.integers(1, 6), max_size=2)


def dup_obj(b, how):
    return pickle.loads(pickle.dumps(b)) if how == 'p' else copy.deepcopy(b)


def results(b):
    """Everything the object hands out on request."""
    out = []
    for f in ('getmin', 'getcoef', 'getdict', 'reconstruct'):
        g = getattr(b, f, None)
        if g is None:
            continue
        try:
            v = g()
        except Exception:
            continue
        out += [(f, x) for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, np.ndarray)]
    return out


def compare(t, cap, ref, what, exact, tol):
    t.check(len(cap) <= len(ref), '%s: %d iterations, reference %d', what, len(cap), len(ref))
    for i, (a, r) in enumerate(zip(cap, ref)):
        t.eq(a['k'], r['k'], '%s: iteration counter' % what)
        t.eq(sorted(a), sorted(r), '%s: iterates present' % what)
        for k in r:
            if k == 'k':
                continue
            if isinstance(r[k], np.ndarray):
                if exact:
                    t.same(a[k], r[k], '%s: iteration %d: %s' % (what, i, k))
                elif np.all(np.isfinite(r[k])):
                    t.close(a[k], r[k], tol, tol * 1e-2, msg='%s: iteration %d: %s' % (what, i, k))
            elif r[k] == r[k]:
                t.check(abs(a[k] - r[k]) <= (0 if exact else tol * max(1, abs(r[k]))), '%s: iteration %d: %s = %r, reference %r',
                        what, i, k, a[k], r[k])


def history(t, case, mk, it, what, loose, canpickle=True, setn=None):
    """mk(extra) -> solver; it(solver) -> the iterating object."""
    setn = setn or (lambda s, n: s.opt.__setitem__('MaxMainIter', n))
    ops = case['ops']
    total = sum(o[1] for o in ops if o[0] == 'run') + 3
    ref = mk({'MaxMainIter': total, 'Callback': case['cap']()})
    ref.solve()
    rc = it(ref).opt['Callback'].caps
    if not all(np.all(np.isfinite(v)) for c in rc for v in c.values() if isinstance(v, np.ndarray)):
        t.skip('diverged')
    ri = ref.getitstat()
    tol = 1e-5 if loose else 1e-8
    b = mk({'MaxMainIter': 1, 'Callback': case['cap'](case['stops'])})
    held = []
    forks = []
    exact = True
    cuts = 0
    for op in list(ops) + [['run', 2]]:
        s = it(b)
        if op[0] == 'run':
            setn(s, op[1])
            R = b.solve()
            cuts += 1
            for x in (R if isinstance(R, tuple) else (R,)):
                if isinstance(x, np.ndarray):
                    held.append(('solve() result', x, x.copy()))
            compare(t, it(b).opt['Callback'].caps, rc, what, exact, tol)
        elif op[0] == 'poke':
            for f, x in results(b):
                held.append((f + '()', x, x.copy()))
            g = b.getitstat()
            if g is not None:
                held.append(('getitstat().Iter', np.asarray(g.Iter), np.array(g.Iter)))
        elif not canpickle:
            continue
        elif op[0] in ('pickle', 'deepcopy'):
            b = dup_obj(b, op[0][0])
            exact = False
            cuts += 1
        elif op[0] == 'fork':
            # the copy is continued after the original has moved on
            forks.append((dup_obj(b, op[1]), len(it(b).opt['Callback'].caps)))
        else:
            c = dup_obj(b, op[1])
            setn(it(c), 2)
            c.solve()
            compare(t, it(c).opt['Callback'].caps, rc, what + ' (copy run first)', False, tol)
            exact = exact and True
    for c, n in forks:
        t.eq(len(it(c).opt['Callback'].caps), n, what + ': a copy performed iterations of the original')
        setn(it(c), 2)
        c.solve()
        compare(t, it(c).opt['Callback'].caps, rc, what + ' (copy run last)', False, tol)
        held += []
    for n, x, x0 in held:
        t.same(x, x0, '%s: array returned by %s altered by later calls' % (what, n))
    its = b.getitstat()
    n = len(it(b).opt['Callback'].caps)
    t.eq(list(its.Iter), list(range(n)), what + ': statistics indices')
    t.check(np.all(np.diff(np.asarray(its.Time, dtype=float)) >= 0), '%s: times decrease: %s', what, its.Time)
    for f in its._fields:
        if f == 'Time':
            continue
        for k in range(n):
            x, y = getattr(its, f)[k], getattr(ri, f)[k]
            if x is None or y is None:
                t.check(x is y, '%s: statistic %s', what, f)
                continue
            x, y = float(x), float(y)
            if not (np.isfinite(x) and np.isfinite(y)):
                continue
            if exact:
                t.check(x == y, '%s: iteration %d: statistic %s %r, uninterrupted %r', what, k, f, x, y)
            elif f in ('ObjFun', 'DFid', 'Rho', 'L', 'XRho', 'DRho'):
                t.check(abs(x - y) <= 10 * tol * (1 + abs(y)) * 10, '%s: iteration %d: statistic %s %r, uninterrupted %r', what, k, f, x, y)
    kk = [k for k in rc[0] if isinstance(rc[0][k], np.ndarray) and k in ('X', 'Y', 'C', 'D', 'xX')]
    t.nontrivial(cuts >= 2 and n >= 2 and any(not np.array_equal(rc[0][k], rc[n - 1][k]) for k in kk))


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase(), 'o': p13.RUN, 'p': p13.PRUN, 'ops': OPS, 'stops': STOPS}),
           quick=3600, shards=8, budget=18)
def solvers(case, t):
    o, p = dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    m, mk, inner = p13.build(case['w'], o, p)
    loose = (p['bt'] != 'none' or p['step'] != 'none' or p['mono']) if m.kind.startswith('pgm') or getattr(m, 'pgm', False) \
        else o['auto'] != 'off'
    what = m.kind + ('/' + m.inner if getattr(m, 'inner', None) else '')
    if m.kind == 'TVL2Denoise' or m.kind.startswith('TV'):
        loose = True
    if m.kind in ('cg', 'md.cg'):
        loose = True
    history(t, dict(case, cap=lambda s=(): Cap(s)), mk, inner, what, loose)
    t.label(what)


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('bpdn', 'wbpdn', 'conv', 'conv', 'mask', 'mask', 'par', 'parmask')),
                                  'o': dlm.OPTS, 'ops': OPS, 'stops': STOPS}), quick=1200, shards=8, budget=14)
def learn(case, t):
    c, o = case['c'], case['o']
    m = dlm.Model(c)
    if m.par and c['nproc'] and c['seed'] % 8:
        m.c['nproc'] = 0
    what = '%s(%s,%s)' % (m.kind, m.xm, m.dm)
    loose = o['bt'] != 'none' or o['auto'] != 'off' or o['mono'] or m.dm == 'cg'
    history(t, dict(case, cap=lambda s=(): Cap(s, lsnap)), lambda x: m.make(o, x), lambda b: b, what, loose)
    t.label(what)


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=dlm.ONLINE), 'o': dlm.OPTS, 'n': st.integers(2, 4),
                                  'ops': st.lists(st.sampled_from(['none', 'pickle', 'deepcopy', 'fork']), min_size=4, max_size=4)}),
           quick=400, shards=4, budget=8)
def online(case, t):
    c, o = case['c'], case['o']
    m = dlm.Model(c)
    ref = m.make(o)
    sig = [dlm.Model(dict(c, seed=c['seed'] + 17 * k)) for k in range(case['n'])]
    Ds = [np.array(m.feed(ref, q.S, q.W), copy=True) for q in sig]
    b = m.make(o)
    exact = True
    forks = []
    held = []
    for k, q in enumerate(sig):
        op = case['ops'][k]
        if op in ('pickle', 'deepcopy'):
            b = dup_obj(b, op[0])
            exact = False
        elif op == 'fork':
            forks.append((k, dup_obj(b, 'p' if k % 2 else 'd')))
        R = m.feed(b, q.S, q.W)
        held.append((R, R.copy()))
        if exact:
            t.same(R, Ds[k], '%s: step %d' % (m.kind, k))
        else:
            t.close(R, Ds[k], 1e-6, 1e-8, msg='%s: step %d after %s' % (m.kind, k, case['ops'][:k + 1]))
    for k0, f in forks:
        for k in range(k0, len(sig)):
            t.close(m.feed(f, sig[k].S, sig[k].W), Ds[k], 1e-6, 1e-8, msg='%s: copy, step %d' % (m.kind, k))
        t.eq(list(f.getitstat().Iter), list(range(len(sig))), 'indices of the copy')
    for R, R0 in held:
        t.same(R, R0, m.kind + ': returned dictionary altered by later steps')
    t.eq(list(b.getitstat().Iter), list(range(len(sig))), 'indices')
    t.nontrivial(np.abs(Ds[-1] - Ds[0]).max() > 1e-9 and any(x != 'none' for x in case['ops'][:case['n']]))


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ParConvBPDN'], maxN=(6, 4, 3), dimNs=(1, 2, 2), minN=2), 'ns': st.lists(st.integers(1, 3), min_size=2, max_size=3),
                                  'np': st.integers(1, 2), 'relax': st.sampled_from([1.0, 1.8]),
                                  'how': st.sampled_from(['none', 'p', 'd', 'other'])}), quick=40, shards=4, budget=10)
def par(case, t):
    m = sv.Model(case['c'])
    d = {'AuxVarObj': True, 'RelaxParam': case['relax'], 'RelStopTol': 0.0, 'AutoRho': {'Enabled': False}}
    ref = m.make(dict(d, MaxMainIter=sum(case['ns'])), nproc=case['np'])
    R = np.array(ref.solve(), copy=True)
    b = m.make(dict(d, MaxMainIter=case['ns'][0]), nproc=case['np'])
    held = []
    for i, n in enumerate(case['ns']):
        b.opt['MaxMainIter'] = n
        if i:
            if case['how'] in 'pd':
                b = dup_obj(b, case['how'])
            elif case['how'] == 'other':
                q = sv.Model(dict(case['c'], seed=case['c']['seed'] + 1)).make(dict(d, MaxMainIter=2), nproc=1)
                q.solve()
        X = b.solve()
        held.append((X, X.copy()))
    t.close(X, R, 1e-9, 1e-11, msg='ParConvBPDN: several calls against one call')
    for x, x0 in held:
        t.same(x, x0, 'ParConvBPDN: returned array altered by later calls')
    t.eq(list(b.getitstat().Iter), list(range(sum(case['ns']))), 'indices')
    t.close(b.getitstat().ObjFun, ref.getitstat().ObjFun, 1e-9, 1e-11, msg='ObjFun')
    t.nontrivial(np.any(R))
    t.label(case['how'])


# -- plug and play priors ---------------------------------------------------------

class Soft(object):
    """Picklable denoiser / proximal map."""

    def __init__(self, a):
        self.a = a

    def __call__(self, x, *args):
        return np.sign(x) * np.maximum(np.abs(x) - self.a, 0)


class Quad(object):
    """f(x) = 1/2 ||w (x - s)||^2 and its prox / gradient."""

    def __init__(self, w, s):
        self.w, self.s = w, s

    def f(self, x):
        return 0.5 * np.sum((self.w * (x - self.s))**2)

    def prox(self, x, rho, *a, **k):
        return (self.w**2 * self.s + rho * x) / (self.w**2 + rho)

    def grad(self, x):
        return self.w**2 * (x - self.s)


@CHECK.sub(st.fixed_dictionaries({'seed': seeds(), 'kind': st.sampled_from(['admm', 'cns', 'pgm']), 'shp': st.lists(st.integers(1, 5), min_size=1, max_size=2),
                                  'ops': OPS, 'stops': STOPS, 'rho': st.sampled_from([0.5, 1.0, 3.0])}), quick=400, shards=4, budget=6)
def plug(case, t):
    rs = rng(case['seed'], 3)
    shp = tuple(case['shp'])
    q = [Quad(0.5 + rs.rand(*shp), rs.randn(*shp)) for _ in range(2)]
    den = Soft(0.1)

    def mk(x):
        if case['kind'] == 'admm':
            K = ppp.PPP
            return K(shp, q[0].f, q[0].prox, den, K.Options(dict({'rho': case['rho'], 'RelStopTol': 0.0}, **x)))
        if case['kind'] == 'cns':
            K = ppp.PPPConsensus
            return K(shp, [q[0].prox, q[1].prox], den, opt=K.Options(dict({'rho': case['rho'], 'RelStopTol': 0.0}, **x)))
        K = pppp.PPP
        return K(shp, q[0].f, q[0].grad, den, K.Options(dict({'L': 4.0, 'RelStopTol': 0.0}, **x)))
    history(t, dict(case, cap=lambda s=(): Cap(s)), mk, lambda b: b, 'ppp.' + case['kind'], False)
    t.label(case['kind'])


# an iterative sub-problem solver that starts at the previous x is not
# determined by (y, u) alone
STARTX = ('TVL1Denoise', 'TVL2Denoise', 'cg', 'md.cg', 'md.cns')


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase().filter(lambda w: 'pgm' not in w['c']['kind'] and w['c']['kind'] not in STARTX),
                                  'o': p13.RUN, 'n1': st.integers(1, 5), 'n2': st.integers(1, 4)}), quick=1200, shards=8, budget=12)
def warm(case, t):
    """A new ADMM solver given the auxiliary and dual variables and the penalty
    of another one continues its trajectory."""
    o = dict(case['o'], tol=0.0, auto='off', f32=False)
    m, mk, inner = p13.build(case['w'], o, {})
    what = m.kind + ('/' + m.inner if getattr(m, 'inner', None) else '')
    n1, n2 = case['n1'], case['n2']
    ref = mk({'MaxMainIter': n1 + n2, 'Callback': Cap()})
    ref.solve()
    caps = inner(ref).opt['Callback'].caps
    if not all(np.all(np.isfinite(v)) for c in caps for v in c.values() if isinstance(v, np.ndarray)):
        t.skip('diverged')
    c0 = caps[n1 - 1]
    Y0, U0 = c0['Y'].copy(), c0['U'].copy()
    b = mk({'MaxMainIter': n2, 'Callback': Cap(), 'Y0': Y0, 'U0': U0, 'rho': c0['rho']})
    Y0[...] = np.nan if case['n1'] % 2 else 7.0
    U0[...] = 3.0
    b.solve()
    got = inner(b).opt['Callback'].caps
    t.eq(len(got), n2, what + ': iterations')
    sc = max(np.abs(v).max() if v.size else 0.0 for c in caps for v in (c['X'], c['Y'], c['U']))
    for k in range(n2):
        r = caps[n1 + k]
        for f in ('X', 'Y', 'U'):
            t.close(got[k][f], r[f], 1e-7, 1e-9 * sc, msg='%s: iteration %d after start from given Y, U: %s' % (what, k, f))
    i0, i1 = ref.getitstat(), b.getitstat()
    for f in ('ObjFun', 'DFid', 'PrimalRsdl'):
        for k in range(n2 if f in i0._fields else 0):
            x, y = getattr(i1, f)[k], getattr(i0, f)[n1 + k]
            if np.isfinite(float(y)):
                t.check(abs(x - y) <= 1e-6 * abs(y) + 1e-8 * (1 + sc), '%s: iteration %d after start from given Y, U: %s %.10g, continued run '
                        '%.10g', what, k, f, x, y)
    t.label(what)
    t.nontrivial(np.abs(c0['U']).max() > 0 and np.abs(caps[-1]['Y'] - c0['Y']).max() > 1e-9 * (1 + sc))
