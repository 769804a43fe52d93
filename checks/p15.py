"""P15: solvers never modify their inputs, are deterministic and do not
interact."""
import numpy as np
from vlib.core import Check, st
from vlib import dlm
from vlib.spy import spying, relayout, capture
from vlib.statm import grab
from checks import p13, p14

CHECK = Check('P15', rule='at least two iterations ran, the iterates changed, and at least one input array was not constant '
              '(runs: another solver was constructed or run in between)',
              assumptions=['a repeated run must be bit-identical; a run on other memory layouts of the same values may differ by '
                           'rounding (relative tolerance 1e-8, 1e-5 with back-tracking or penalty adaptation)',
                           'arrays reachable through the options object count as inputs; scalar entries of an options object may '
                           'be completed by a constructor, but must then not change what a second solver built from it computes'])

LAY = st.sampled_from(['C', 'C', 'F', 'strided', 'neg', 'odd'])


def outputs(b):
    out = []
    for f in ('getmin', 'getcoef', 'getdict', 'reconstruct'):
        g = getattr(b, f, None)
        if g is None:
            continue
        try:
            v = g()
        except (NotImplementedError, AttributeError, TypeError):
            continue
        out += [(f + '()', x) for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, np.ndarray)]
    return out


def same_history(t, a, r, what, tol=None):
    t.eq(len(a), len(r), what + ': number of iterations')
    for i, (x, y) in enumerate(zip(a, r)):
        for k in y:
            if isinstance(y[k], np.ndarray):
                if tol is None:
                    t.same(x[k], y[k], '%s: iteration %d: %s' % (what, i, k))
                elif np.all(np.isfinite(y[k])):
                    t.close(x[k], y[k], tol, tol * 1e-2, msg='%s: iteration %d: %s' % (what, i, k))


def same_stats(t, a, r, what):
    t.eq(a._fields, r._fields, what)
    for f in a._fields:
        if f == 'Time':
            continue
        for k, (x, y) in enumerate(zip(getattr(a, f), getattr(r, f))):
            t.check(x == y or (x is None and y is None) or (x != x and y != y), '%s: iteration %d: statistic %s %r, expected %r',
                    what, k, f, x, y)


def unmodified(t, rec, what):
    for n, w, w0 in rec:
        t.same(w, w0, '%s: %s modified' % (what, n))


def isloose(m, o, p):
    pg = m.kind.startswith('pgm') or getattr(m, 'pgm', False)
    if m.kind in ('cg', 'md.cg', 'TVL2Denoise') or m.kind.startswith('TV'):
        return True
    return (p['bt'] != 'none' or p['step'] != 'none' or p['mono']) if pg else o['auto'] != 'off'


def name(m):
    return m.kind + ('/' + m.inner if getattr(m, 'inner', None) else '')


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase(), 'o': p13.RUN, 'p': p13.PRUN, 'lay': LAY, 'ro': st.booleans(),
                                  'wts': st.booleans()}), quick=2400, shards=8, budget=12)
def inputs(case, t):
    o, p = dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    m, mk, inner = p13.build(case['w'], o, p)
    n = sum(o['n']) + 1
    caps = []
    rstate = np.random.get_state()
    with spying(case['lay'], case['ro']) as spy:
        b = mk({'MaxMainIter': n, 'Callback': lambda x: caps.append(grab(x)) and None})
    rec = spy.rec
    what = name(m)
    t.check(rec, '%s: constructed without arrays', what)
    unmodified(t, rec, what + ' construction')
    b.solve()
    unmodified(t, rec, what + ' solve()')
    inner(b).opt['MaxMainIter'] = 1
    b.solve()
    outs = outputs(b)
    unmodified(t, rec, what + ' second solve() and result access')
    for (x, y) in zip(rstate, np.random.get_state()):
        t.check(np.array_equal(x, y), '%s: global random state changed', what)
    # the caller may overwrite a result without affecting the inputs
    for q, x in outs:
        for nm, w, _ in rec:
            if x.flags.writeable and np.shares_memory(x, w):
                t.check(False, '%s: %s shares memory with the input %s', what, q, nm)
    if not all(np.all(np.isfinite(v)) for c in caps for v in c.values() if isinstance(v, np.ndarray)):
        t.skip('diverged')
    rc = []
    r = mk({'MaxMainIter': n, 'Callback': lambda x: rc.append(grab(x)) and None})
    r.solve()
    if case['lay'] == 'C':
        same_history(t, caps[:n], rc, what + ' repeated (read-only: %s)' % case['ro'])
    else:
        same_history(t, caps[:n], rc, '%s with %s input layout' % (what, case['lay']), 1e-5 if isloose(m, o, p) else 1e-8)
    t.label(what)
    t.label(case['lay'])
    t.nontrivial(len(rc) > 1 and not np.array_equal(rc[0]['X'], rc[-1]['X']))


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase(), 'v': p13.anycase(), 'o': p13.RUN, 'p': p13.PRUN, 'o2': p13.RUN, 'p2': p13.PRUN,
                                  'same': st.sampled_from([True, True, False]),
                                  'how': st.sampled_from(['between', 'steps', 'steps', 'callback', 'shared', 'shared', 'sharedsteps'])}),
           quick=3200, shards=8, budget=16)
def interact(case, t):
    o, p = dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    how = case['how']
    m, mk, inner = p13.build(case['w'], o, p)
    if case['same'] or how.startswith('shared'):
        w2 = dict(case['w'], c=dict(case['w']['c'], seed=case['w']['c']['seed'] + 1))
        o2, p2 = (o, p) if how.startswith('shared') else (case['o2'], case['p2'])
    else:
        w2, o2, p2 = case['v'], case['o2'], case['p2']
    o2, p2 = dict(o2, tol=0.0), dict(p2, tol=0.0)
    try:
        m2, mk2, inner2 = p13.build(w2, o2, p2)
    except Exception:
        t.skip('companion problem')
    n = sum(o['n']) + 1
    what = '%s, %s %s' % (name(m), how, name(m2))

    class CB(object):
        """Distinct per solver even when the options object is shared."""
        def __init__(self):
            self.caps = {}
            self.hook = None

        def __call__(self, obj):
            self.caps.setdefault(id(obj), []).append(grab(obj))
            if self.hook:
                self.hook(obj)
    # reference: alone
    cb = CB()
    r = mk({'MaxMainIter': n, 'Callback': cb})
    r.solve()
    rc, rits = cb.caps[id(inner(r))], r.getitstat()
    cb = CB()
    shared = None
    c2 = CB()
    if how.startswith('shared'):
        shared = options(mk, {'MaxMainIter': n, 'Callback': cb})
        with spying(opt=shared):
            a = mk({})
            b = mk2({})
        with spying(opt=options(mk, {'MaxMainIter': n, 'Callback': c2})):
            r2 = mk2({})
        r2.solve()
        r2c = c2.caps[id(inner2(r2))]
    else:
        a = mk({'MaxMainIter': n, 'Callback': cb})
        b = None
        r2 = mk2({'MaxMainIter': n, 'Callback': c2})
        r2.solve()
        r2c = c2.caps[id(inner2(r2))]
    cbb = CB() if shared is None else cb
    if how in ('between', 'callback', 'steps'):
        if how == 'callback':
            def hook(obj):
                cb.hook = None
                z = mk2({'MaxMainIter': 2})
                z.solve()
                outputs(z)
            cb.hook = hook
            a.solve()
        else:
            b = mk2({'MaxMainIter': n, 'Callback': cbb})
    if how in ('steps', 'sharedsteps'):
        for _ in range(n):
            inner(a).opt['MaxMainIter'] = 1
            a.solve()
            inner2(b).opt['MaxMainIter'] = 1
            b.solve()
    elif how in ('between', 'shared'):
        b.solve()
        a.solve()
    same_history(t, cb.caps[id(inner(a))], rc, what)
    same_stats(t, a.getitstat(), rits, what)
    if b is not None:
        same_history(t, cbb.caps[id(inner2(b))], r2c, what + ': companion')
    t.label(name(m))
    t.label(how)
    t.nontrivial(len(rc) > 1 and not np.array_equal(rc[0]['X'], rc[-1]['X']))


def options(mk, x):
    """The options object the factory passes on, untouched by any
    constructor."""
    _, a, k = capture(mk, x)
    return [v for v in a + list(k.values()) if isinstance(v, dict)][-1]


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('bpdn', 'wbpdn', 'conv', 'conv', 'mask', 'mask', 'par', 'parmask')),
                                  'o': dlm.OPTS, 'lay': LAY, 'ro': st.booleans(), 'n': st.integers(1, 3),
                                  'how': st.sampled_from(['none', 'between', 'steps', 'callback', 'shared', 'sharedsteps'])}),
           quick=1100, shards=8, budget=16)
def learn(case, t):
    c, o, n, how = case['c'], case['o'], case['n'] + 1, case['how']
    m = dlm.Model(c)
    m2 = dlm.Model(dict(c, seed=c['seed'] + 2))     # same parity: same use of the DictSize option
    if m.par and c['nproc'] and c['seed'] % 8:
        m.c['nproc'] = m2.c['nproc'] = 0
    what = '%s(%s,%s) %s' % (m.kind, m.xm, m.dm, how)
    loose = o['bt'] != 'none' or o['auto'] != 'off' or o['mono'] or m.dm == 'cg'

    class CB(object):
        def __init__(self):
            self.caps, self.hook = {}, None

        def __call__(self, obj):
            self.caps.setdefault(id(obj), []).append(p14.lsnap(obj))
            if self.hook:
                self.hook(obj)
    cr = CB()
    r = m.make(o, {'MaxMainIter': n, 'Callback': cr})
    r.solve()
    rc = cr.caps[id(r)]
    rstate = np.random.get_state()
    if how.startswith('shared'):
        ca, cq = CB(), CB()
        opt = m.mkopt(o, {'MaxMainIter': n, 'Callback': ca})
        a = m.make(o, opt=opt)
        b = m2.make(o, opt=opt)
        q = m2.make(o, opt=m.mkopt(o, {'MaxMainIter': n, 'Callback': cq}))
        q.solve()
        if how == 'shared':
            b.solve()
            a.solve()
        else:
            opt['MaxMainIter'] = 1
            for _ in range(n):
                a.opt['MaxMainIter'] = b.opt['MaxMainIter'] = 1
                a.solve()
                b.solve()
        same_history(t, ca.caps[id(a)], rc, what)
        same_history(t, ca.caps[id(b)], cq.caps[id(q)], what + ': second learner')
    else:
        ca = CB()
        with spying(case['lay'], case['ro']) as spy:
            a = m.make(o, {'MaxMainIter': n, 'Callback': ca})
        rec = spy.rec
        unmodified(t, rec, what + ' construction')
        if how == 'between':
            b = m2.make(o, {'MaxMainIter': 2})
            b.solve()
        elif how == 'callback':
            def hook(obj):
                ca.hook = None
                m2.make(o, {'MaxMainIter': 2}).solve()
            ca.hook = hook
        if how == 'steps':
            b = m2.make(o, {'MaxMainIter': 1})
            for _ in range(n):
                a.opt['MaxMainIter'] = 1
                a.solve()
                b.solve()
        else:
            a.solve()
        unmodified(t, rec, what + ' solve()')
        outs = outputs(a)
        a.opt['MaxMainIter'] = 1
        a.solve()
        unmodified(t, rec, what + ' second solve() and result access')
        for q, x in outs:
            for nm, w, _ in rec:
                if np.shares_memory(x, w):
                    t.check(False, '%s: %s shares memory with the input %s', what, q, nm)
        if case['lay'] == 'C':
            same_history(t, ca.caps[id(a)][:n], rc, what)
            same_stats(t, r.getitstat(), a.getitstat()._replace(**{f: getattr(a.getitstat(), f)[:n] for f in a.getitstat()._fields}), what)
        elif all(np.all(np.isfinite(v)) for d in rc for v in d.values() if isinstance(v, np.ndarray)):
            same_history(t, ca.caps[id(a)][:n], rc, what + ' with %s input layout' % case['lay'], 1e-4 if loose else 1e-7)
    for (x, y) in zip(rstate, np.random.get_state()):
        t.check(np.array_equal(x, y), '%s: global random state changed', what)
    t.label(what)
    t.nontrivial(len(rc) > 1 and not np.array_equal(rc[0]['D'], rc[-1]['D']))


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=dlm.ONLINE), 'o': dlm.OPTS, 'n': st.integers(2, 4), 'lay': LAY, 'ro': st.booleans(),
                                  'how': st.sampled_from(['none', 'steps', 'shared', 'reuse'])}), quick=400, shards=4, budget=8)
def online(case, t):
    c, o, how = case['c'], case['o'], case['how']
    m = dlm.Model(c)
    what = m.kind + ' ' + how
    ms = [dlm.Model(dict(c, seed=c['seed'] + 17 * k)) for k in range(case['n'])]
    r = m.make(o)
    ref = [np.array(m.feed(r, q.S, q.W), copy=True) for q in ms]
    m2 = dlm.Model(dict(c, seed=c['seed'] + 2))
    if how == 'shared':
        opt = m.mkopt(o)
        a, b = m.make(o, opt=opt), m2.make(o, opt=opt)
        q2 = m2.make(o, opt=m.mkopt(o))
        rec = []
    else:
        with spying(case['lay'], case['ro']) as spy:
            a = m.make(o)
        rec = spy.rec
        b = m2.make(o)
        q2 = m2.make(o)
    buf = [np.zeros_like(m.S), None if m.W is None else np.zeros_like(m.W)]
    for k, q in enumerate(ms):
        if how == 'reuse':
            # the caller recycles one buffer for all signals
            S, W = buf
            S[...] = q.S
            if W is not None:
                if q.W.shape == W.shape:
                    W[...] = q.W
                else:
                    W = q.W.copy()
        else:
            S = relayout(q.S, case['lay'])
            W = None if q.W is None else relayout(q.W, case['lay'])
            if case['ro']:
                for v in (S, W):
                    if v is not None:
                        v.flags.writeable = False
        D = m.feed(a, S, W)
        t.same(S, q.S, what + ': signal modified')
        if W is not None:
            t.same(W, q.W, what + ': mask modified')
        if how in ('steps', 'shared'):
            t.same(m2.feed(b, q.S, q.W), m2.feed(q2, q.S, q.W), what + ': second learner, step %d' % k)
        if case['lay'] == 'C':
            t.same(D, ref[k], '%s: step %d' % (what, k))
        else:
            t.close(D, ref[k], 1e-5, 1e-7, msg='%s: step %d with %s layout' % (what, k, case['lay']))
    unmodified(t, rec, what)
    t.label(what)
    t.nontrivial(len(ref) > 1 and np.abs(ref[0] - ref[-1]).max() > 1e-9)


# -- single precision -----------------------------------------------------------

def arrays_of(b):
    out = []
    for a in ('X', 'Y', 'U', 'Xprv', 'Yprev', 'AX'):
        v = getattr(b, a, None)
        if isinstance(v, np.ndarray):
            out.append((a, v))
    return out


def single(x):
    return x.dtype in (np.float32, np.complex64)


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase(), 'o': p13.RUN, 'p': p13.PRUN, 'opt': st.booleans()}), quick=1600, shards=8, budget=9)
def precision(case, t):
    o, p = dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    opt = case['opt']
    m, mk, inner = p13.build(case['w'], o, p, 'float64' if opt else 'float32')
    what = '%s %s' % (name(m), 'DataType' if opt else 'input')
    n = sum(o['n'])
    x = {'MaxMainIter': n}
    if opt:
        if getattr(m, 'cplx', False):
            t.skip('complex data')
        x['DataType'] = np.dtype(np.float32)
    b = mk(x)
    R = b.solve()
    for i, v in enumerate(R if isinstance(R, tuple) else (R,)):
        t.check(single(v), '%s: solve() returned %s', what, v.dtype)
    for q, v in arrays_of(inner(b)) + outputs(b):
        t.check(single(v), '%s: %s is %s', what, q, v.dtype)
    t.label(what)
    t.nontrivial(n > 1)


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(), 'o': dlm.OPTS, 'n': st.integers(1, 3)}), quick=400, shards=4, budget=6)
def learnprecision(case, t):
    c, o = case['c'], case['o']
    m = dlm.Model(c, 'float32')
    if m.par and c['nproc'] and c['seed'] % 8:
        m.c['nproc'] = 0
    what = '%s(%s,%s)' % (m.kind, m.xm, m.dm)
    if m.online:
        b = m.make(o)
        for _ in range(case['n']):
            D = m.feed(b, m.S, m.W)
            t.check(single(D), '%s: solve() returned %s', what, D.dtype)
        t.check(single(b.getdict()), '%s: getdict() is %s', what, b.getdict().dtype)
    else:
        b = m.make(o, {'MaxMainIter': case['n']})
        D = b.solve()
        t.check(single(D), '%s: solve() returned %s', what, D.dtype)
        for q, v in outputs(b):
            t.check(single(v), '%s: %s is %s', what, q, v.dtype)
    t.label(what)
    t.nontrivial(case['n'] > 1)
