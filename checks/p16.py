"""P16: performance options and parallel or accelerated variants do not
change results."""
import numpy as np
from vlib.core import Check, st, rng, seeds
from vlib import solvers as sv
from vlib import dupd, densem, dlm, alt
from vlib.spy import capture
from vlib.statm import grab
from checks import p13, p15
from checks.p15 import same_history, isloose, name
import sporco.fft
from sporco import cdict
from sporco.admm import bpdn as abpdn
from sporco.pgm import bpdn as pbpdn

CHECK = Check('P16', rule='both variants performed at least two iterations, the iterates changed, and the compared option or '
              'implementation was really in use (functions: non-constant input)',
              assumptions=['variants that evaluate the same formula in another order are compared with relative tolerance 1e-8 '
                           '(1e-5 when back-tracking, penalty adaptation or an inner iterative solver amplifies rounding); '
                           'variants that only schedule the same work differently must agree to 1e-10',
                           'the device library is not installed: the array-backend wrapper is run on its documented host '
                           'fallback', 'ParConvBPDN: different numbers of coefficient groups give different iterations with the '
                           'same limit (its optimum is decided under P08); the same groups on any number of processes must '
                           'give the same iterates'])


def run(b, s, n, keep=None):
    caps = []
    s.opt['Callback'] = lambda x: caps.append(grab(x)) and None
    s.opt['MaxMainIter'] = n
    b.solve()
    return caps


NOPG = dict(tol=0.0, mom='nesterov', bt='none', step='none', mono=False, L=1.05, f32=False, stop=None)


def stats_close(t, a, r, what, tol, fields=('ObjFun', 'DFid', 'RegL1', 'Rho', 'L'), n=None):
    if n is not None and n < len(a.Iter):
        n = max(n - 1, 0)
    for f in fields:
        if f in a._fields and f in r._fields:
            for k, (x, y) in enumerate(zip(getattr(a, f)[:n], getattr(r, f)[:n])):
                x, y = float(x), float(y)
                if np.isfinite(y) and abs(y) > 1e-9:
                    t.check(abs(x - y) <= tol * (1 + abs(y)), '%s: iteration %d: statistic %s %r, reference %r', what, k, f, x, y)


def exact(*all_its):
    """Number of iterations before a residual, or its normalisation, reaches
    rounding level, where its value (and so an adapted penalty) is
    undetermined."""
    n = len(all_its[0].Iter)
    for its in all_its:
        for f in ('PrimalRsdl', 'DualRsdl', 'Rsdl'):
            if f in its._fields:
                v = np.array(getattr(its, f), dtype=float)
                n = min([n] + [k + 1 for k in np.flatnonzero(~((v > 1e-11) & (v < 1e7)))])
    return n


def unused(t, X):
    """Skip histories in which a filter is not used at all: its update can
    be a normalised rounding error."""
    X = np.asarray(X)
    if np.any(np.abs(X).reshape(-1, X.shape[-1]).max(axis=0) < 1e-12):
        t.skip('unused filter')


def ok(caps):
    return all(np.all(np.isfinite(v)) and np.abs(v).max(initial=0) < 1e8 for c in caps for v in c.values() if isinstance(v, np.ndarray))


def moving(t, caps):
    k = 'X' if 'X' in caps[0] else 'D'
    t.nontrivial(len(caps) > 1 and not np.array_equal(caps[0][k], caps[-1][k]))


# -- memory/speed options ---------------------------------------------------------

@CHECK.sub(st.fixed_dictionaries({'c': sv.case(sv.ADMM_EQ * 2 + sv.ADMM_2B + sv.ADMM_TV * 2 + sv.PDCSC + sv.WRAP, maxN=(8, 5, 3)),
                                  'o': p13.RUN, 'redict': st.booleans()}), quick=2400, shards=8, budget=12)
def highmem(case, t):
    o = dict(case['o'], tol=0.0)
    w = dict(which='conv', c=case['c'])
    m, mk, inner = p13.build(w, o, {})
    what = name(m) + ' HighMemSolve'
    hs = []
    for hm in (False, True):
        b = mk({'HighMemSolve': hm})
        c = run(b, inner(b), o['n'][0] + 1)
        if case['redict'] and m.kind not in ('MultiDict',) and m.B is None:
            D2 = rng(case['c']['seed'], 5).randn(*m.p.D.shape).astype(m.dtype)
            b.setdict(as_dict(m, D2))
            c += run(b, inner(b), 2)
        hs.append((c, b.getitstat()))
    if not ok(hs[0][0]):
        t.skip('diverged')
    loose = isloose(m, o, dict(bt='none', step='none', mono=False)) and o['auto'] != 'off'
    k = exact(hs[0][1], hs[1][1])
    same_history(t, hs[1][0][:k], hs[0][0][:k], what, 1e-5 if loose else 1e-8)
    t.label(name(m))
    moving(t, hs[0][0])


def as_dict(m, D2):
    """A replacement dictionary in the internal layout."""
    return D2.reshape(D2.shape[:m.n] + (m.p.Cd, 1, m.p.M))


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase(), 'o': p13.RUN, 'hm': st.booleans()}), quick=1600, shards=8, budget=8)
def linsolve(case, t):
    o = dict(case['o'], tol=0.0)
    m, mk, inner = p13.build(case['w'], o, dict(NOPG, n=o['n']))
    x = {'MaxMainIter': sum(o['n'])}
    b = mk(x)
    s = inner(b)
    if 'LinSolveCheck' not in s.opt:
        t.skip('no linear solve check')
    x['LinSolveCheck'] = True
    if 'HighMemSolve' in s.opt and case['hm']:
        x['HighMemSolve'] = True
    if 'CG' in s.opt:
        x['CG'] = {'MaxIter': 500, 'StopTol': 1e-9}
    b = mk(x)
    s = inner(b)
    caps = run(b, s, sum(o['n']) + 1)
    if not ok(caps):
        t.skip('diverged')
    its = b.getitstat()
    v = [q for q in its.XSlvRelRes]
    t.check(all(q is not None for q in v), '%s: XSlvRelRes not reported: %s', name(m), v)
    lim = 1e-5
    for k, q in enumerate(v):
        r = its.Rho[k]
        if not (1e-4 < float(r) < 1e6) or (k < len(caps) and np.abs(caps[k]['X']).max() < 1e-10):
            break
        t.check(float(q) <= lim, '%s: iteration %d: XSlvRelRes %g (rho %g)', name(m), k, q, r)
    t.label(name(m))
    t.nontrivial(len(v) > 1 and max(float(q) for q in v) > 0)


# -- dictionary updates and learning: linear solver variants, worker processes -----

@CHECK.sub(st.fixed_dictionaries({'c': dupd.case(), 'o': p13.RUN}), quick=1500, shards=8, budget=8)
def dmethod(case, t):
    o = dict(case['o'], tol=0.0)
    c = dict(case['c'])
    md = c['kind'].startswith('md') or c['kind'] == 'pgm.md'
    if c['kind'] in ('cmod', 'pgm.cmod', 'pgm.wcmod'):
        t.skip('no variants')
    hs = []
    for k in ('ism', 'cg'):
        c['kind'] = ('md.' if md else '') + k
        m = dupd.Model(c)
        d = p13.admm_common(o, 1.0 if md else m.lip())
        d.update(m.init())
        if k == 'cg':
            d['CG'] = {'MaxIter': 1000, 'StopTol': 1e-12}
        b = m.make(d)
        hs.append((run(b, b, o['n'][0] + 1), b.getitstat()))
    what = 'dictionary update %s against cg' % ('md.ism' if md else 'ism')
    if not ok(hs[0][0]):
        t.skip('diverged')
    rho = np.array(hs[0][1].Rho, dtype=float)
    if np.any(rho < 1e-3) or np.any(rho > 1e5):
        t.skip('ill-conditioned linear system')
    k = exact(hs[0][1], hs[1][1])
    same_history(t, hs[1][0][:k], hs[0][0][:k], what, 1e-4)
    stats_close(t, hs[1][1], hs[0][1], what, 1e-4, n=k)
    t.label('md' if md else 'plain')
    moving(t, hs[0][0])


def lrun(m, o, n):
    from checks.p14 import lsnap
    caps = []
    b = m.make(o, {'MaxMainIter': n, 'Callback': lambda x: caps.append(lsnap(x)) and None})
    b.solve()
    return b, caps


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('conv', 'mask')), 'o': dlm.OPTS, 'n': st.integers(2, 4)}), quick=240, shards=8, budget=8)
def learnmethod(case, t):
    c, o = dict(case['c']), dict(case['o'], acc=False)
    hs = []
    o['auto'] = 'off'
    for k in ('ism', 'cg'):
        m = dlm.Model(dict(c, dm=k))
        orig = m.dopts
        m.dopts = lambda q, orig=orig: dict(orig(q), **({'CG': {'MaxIter': 1000, 'StopTol': 1e-12}} if m.dm == 'cg' else {}))
        hs.append(lrun(m, o, case['n'])[1])
    if not ok(hs[0]):
        t.skip('diverged')
    keep = [k for k in hs[0][0] if k in ('D', 'C', 'xX', 'xY', 'dX', 'dY', 'dU')]
    f = [[{k: d[k] for k in keep if k in d} for d in h] for h in hs]
    loose = o['bt'] != 'none' or o['mono']
    same_history(t, f[1], f[0], 'dictionary learning %s ism against cg' % m.kind, 1e-3 if loose else 1e-5)
    t.label(m.kind)
    moving(t, hs[0])


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('par', 'parmask')), 'o': dlm.OPTS, 'n': st.integers(2, 4),
                                  'np': st.sampled_from([0, 0, 0, 1, 2, 3, 5])}), quick=500, shards=8, budget=12)
def parlearn(case, t):
    """Parallel consensus learning: the serial learner with the consensus
    dictionary update, for any number of processes."""
    c, o = dict(case['c']), dict(case['o'], auto='off', xit=1, dit=1, acc=False)
    np_ = case['np']
    if np_ and c['seed'] % 3:
        np_ = 0
    mp_ = dlm.Model(dict(c, nproc=np_))
    o['xrho'] = o['xrho'] or 1.0
    o['drho'] = o['drho'] or 1.0
    ms = dlm.Model(dict(c, kind='conv' if mp_.kind == 'par' else 'mask', xm='admm', dm='cns', C=mp_.C, sC=c['sC']))
    ms.lmbda, ms.S, ms.Si, ms.D0, ms.W, ms.w = mp_.lmbda, mp_.S, mp_.Si, mp_.D0, mp_.W, mp_.w
    bp, hp = lrun(mp_, o, case['n'])
    b, hs = lrun(ms, o, case['n'])
    if not ok(hs):
        t.skip('diverged')
    what = '%s with %d processes against the serial learner' % (mp_.kind, np_)
    for k, (x, y) in enumerate(zip(hp, hs)):
        for q in ('D', 'C'):
            t.close(np.asarray(x[q]).reshape(y[q].shape), y[q], 1e-8, 1e-10, msg='%s: iteration %d: %s' % (what, k, q))
    t.close(np.asarray(bp.reconstruct()).ravel(), np.asarray(b.reconstruct()).ravel(), 1e-7, 1e-9, msg=what + ': reconstruct()')
    t.label('%s nproc %d' % (mp_.kind, np_))
    moving(t, hs)


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ParConvBPDN'], maxN=(6, 4, 3), dimNs=(1, 2, 2), minN=2, maxM=5), 'n': st.integers(2, 5),
                                  'grp': st.integers(1, 5), 'np': st.lists(st.integers(1, 7), min_size=2, max_size=2, unique=True),
                                  'relax': st.sampled_from([1.0, 1.8]), 'hm': st.booleans(), 'rho': st.sampled_from([0.5, 1.0, 5.0])}),
           quick=40, shards=8, budget=14)
def parcode(case, t):
    m = sv.Model(case['c'])
    g = min(case['grp'], m.p.M)
    out = []
    for i, n in enumerate(case['np']):
        b = m.make({'AuxVarObj': True, 'MaxMainIter': case['n'], 'RelaxParam': case['relax'], 'RelStopTol': 0.0, 'rho': case['rho'],
                    'AutoRho': {'Enabled': False}, 'HighMemSolve': bool(case['hm'] and i)}, nproc=n, par=g)
        out.append((np.array(b.solve(), copy=True), b.getitstat()))
    what = 'ParConvBPDN, %d groups, %s processes' % (g, case['np'])
    t.close(out[1][0], out[0][0], 1e-9, 1e-11, msg=what)
    stats_close(t, out[1][1], out[0][1], what, 1e-7, ('ObjFun', 'DFid', 'RegL1'))
    t.label('groups %d' % g)
    t.nontrivial(np.any(out[0][0]))


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ParConvBPDN'], maxN=(6, 4, 3), dimNs=(1, 2, 2), minN=2, maxM=4), 'n': st.integers(1, 4),
                                  'grp': st.integers(1, 4), 'relax': st.sampled_from([1.0, 1.5, 1.8]), 'hm': st.booleans(),
                                  'rho': st.sampled_from([0.5, 1.0, 5.0]), 'alpha': st.sampled_from([None, 0.5, 1.0, 3.0]),
                                  'init': st.lists(st.sampled_from(['Y0', 'U0', 'Y1', 'U1']), max_size=4, unique=True)}),
           quick=250, shards=8, budget=10)
def pariter(case, t):
    """ParConvBPDN against the documented group-split iteration written with
    explicit matrices, from zero or given initial variables."""
    m = sv.Model(case['c'])
    p = m.p
    g = min(case['grp'], p.M)
    rs = rng(case['c']['seed'], 77)
    ishp = {'Y0': p.Nv + (p.C, p.K, g), 'U0': p.Nv + (p.C, p.K, g), 'Y1': m.shpX, 'U1': m.shpX}
    V = {k: rs.randn(*s) if k in case['init'] else np.zeros(s) for k, s in ishp.items()}
    o = {'AuxVarObj': True, 'MaxMainIter': case['n'], 'RelaxParam': case['relax'], 'RelStopTol': 0.0, 'rho': case['rho'],
         'AutoRho': {'Enabled': False}, 'HighMemSolve': case['hm'], 'alpha': case['alpha']}
    o.update({k: V[k].copy() for k in case['init']})
    b = m.make(o, nproc=1, par=g)
    X = np.array(b.solve(), copy=True)
    al, rho, rlx = case['alpha'] or 1.0, case['rho'], case['relax']
    A = p.matrix()
    n1 = m.n1
    grp = np.array_split(np.arange(p.M), g)
    cols = [np.concatenate([np.arange(k * n1, (k + 1) * n1) for k in q]) for q in grp]
    S, W2, w = p.packS(p.S64), p.packS(m.Wi) ** 2, p.pack(m.wf)
    Y0 = [p.packS(V['Y0'][..., i:i + 1]) for i in range(g)]
    U0 = [p.packS(V['U0'][..., i:i + 1]) for i in range(g)]
    Y1, U1 = p.pack(V['Y1']), p.pack(V['U1'])
    zm = p.pack(m.zmask.astype(float)) > 0
    for k in range(case['n']):
        Xk, DX = np.zeros_like(Y1), []
        for i, c in enumerate(cols):
            Ai = A[:, c]
            Xk[c] = np.linalg.solve(Ai.T @ Ai + al ** 2 * np.eye(len(c)),
                                    Ai.T @ (Y0[i] - U0[i]) + al ** 2 * (Y1[c] - U1[c] / al))
            DX.append(rlx * (Ai @ Xk[c]) + (1 - rlx) * Y0[i])
        Xk = rlx * Xk + (1 - rlx) * Y1
        Q = [DX[i] + U0[i] for i in range(g)]
        T = (g * W2 * S + rho * sum(Q)) / (g * W2 + rho)
        Y0 = [q - W2 * (T - S) / rho for q in Q]
        z = Xk + U1 / al
        Y1 = np.sign(z) * np.maximum(0, np.abs(z) - float(m.lmbda) / (al ** 2 * rho) * w)
        if m.nn:
            Y1 = np.maximum(Y1, 0)
        Y1[zm] = 0
        U0 = [U0[i] + DX[i] - Y0[i] for i in range(g)]
        U1 = U1 + al * (Xk - Y1)
    t.close(p.pack(X), Y1, 1e-8, 1e-10, msg='ParConvBPDN, %d groups, initial %s' % (g, sorted(case['init'])))
    t.label('initial variables given', bool(case['init']))
    t.label('masked', m.W is not None)
    t.label('groups %d' % g)
    t.nontrivial(np.any(X) and case['n'] > 1)


# -- frequency domain against explicit matrix ----------------------------------------

DENSE = {'ConvBPDN': 'BPDN', 'ConvElasticNet': 'ElasticNet', 'ConvBPDNProjL1': 'BPDNProjL1', 'pgm.ConvBPDN': 'pgm.BPDN',
         'pgm.ConvBPDNMask': 'pgm.WeightedBPDN'}


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(list(DENSE), maxN=(8, 4, 3), names=('plain', 'K', 'C1d', 'Cm', 'CKm')),
                                  'o': p13.RUN, 'p': p13.PRUN}), quick=1500, shards=8, budget=8)
def explicit(case, t):
    """The convolutional solver performs the iterations of its dense
    counterpart applied to the matrix of the convolution."""
    c, o, p = dict(case['c'], nb=False), dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    p['step'] = 'none'
    if c['kind'] == 'ConvBPDNProjL1':
        c['lay'] = dict(c['lay'])
    m = sv.Model(c)
    if m.p.Cx > 1 or (c['kind'] == 'ConvBPDNProjL1' and m.p.K > 1):
        t.skip('several independent columns per signal')
    pg = c['kind'].startswith('pgm')
    if pg:
        d = lambda: p13.pgm_common(p, m.lipA * max(m.Wi.max()**2, 1e-3))
    else:
        # penalty parameter settings made explicit: the defaults of the classes differ
        ar = {'Enabled': o['auto'] == 'on', 'Period': 1, 'Scaling': 10.0, 'RsdlRatio': 2.0, 'AutoScaling': True, 'RsdlTarget': 1.5}
        d = lambda: dict(p13.admm_common(dict(o, rho=o['rho'] or 1.0), m.rho0()), AutoRho=dict(ar))
    A, s = m.bigmat(), m.packS()
    k = DENSE[c['kind']]
    K = getattr(pbpdn, k[4:]) if pg else getattr(abpdn, k)
    dd = dict(d(), Verbose=False)
    if not pg:
        dd['AuxVarObj'] = o['ev'] == 'aux'
    if m.nn:
        dd['NonNegCoef'] = True
    if m.c['wl1'] != 'one' and k != 'BPDNProjL1':
        dd['L1Weight'] = m.pack(m.wf)
    a = {'BPDN': (m.lmbda,), 'ElasticNet': (m.lmbda, m.mu), 'BPDNProjL1': (getattr(m, 'gamma', None),), 'pgm.BPDN': (m.lmbda,),
         'pgm.WeightedBPDN': (m.lmbda, m.packS(m.Wi)**2)}[k]
    b = m.make(d() if pg else dict(d(), AuxVarObj=dd['AuxVarObj']))
    q = K(A, s, *(a + (K.Options(dd),)))
    n = max(o['n'][0], p['n'][0]) + 1
    hc, hd = run(b, b, n), run(q, q, n)
    if not ok(hc):
        t.skip('diverged')
    loose = (p['bt'] != 'none' or p['mono']) if pg else o['auto'] == 'on'
    tol = 1e-5 if loose else 1e-7
    what = '%s against %s' % (m.kind, k)
    if not pg and o['auto'] == 'on' and np.any((np.array(b.getitstat().Rho, dtype=float) < 1e-4)):
        t.skip('ill-conditioned')
    e = exact(b.getitstat(), q.getitstat())
    for i, (x, y) in enumerate(zip(hc[:e], hd[:e])):
        for f in ('X', 'Y', 'U'):
            if f in x and f in y and x[f].shape == m.shpX:
                if pg and f == 'Y':
                    continue
                t.close(m.pack(x[f]), y[f], tol, tol * 1e-2, msg='%s: iteration %d: %s' % (what, i, f))
    stats_close(t, b.getitstat(), q.getitstat(), what, 10 * tol, ('ObjFun', 'DFid', 'RegL1', 'Rho', 'L'), n=e)
    t.label(what)
    moving(t, hc)


# -- optional accelerators, backend wrapper, threads -----------------------------------

def plain_opt(v, mods):
    """Options object -> nested plain dict, with momentum, step size and
    back-tracking objects replaced by their counterparts."""
    out = {}
    for k, x in v.items():
        if isinstance(x, dict):
            x = plain_opt(x, mods)
        elif type(x).__module__.startswith('sporco.pgm.'):
            y = object.__new__(getattr(mods[type(x).__module__[len('sporco.'):]], type(x).__name__))
            y.__dict__.update(x.__dict__)
            x = y
        out[k] = x
    return out


def rebuild(mods, found, prefix):
    """Construct the captured solver from another copy of the package."""
    cls, a, k = found
    for K in cls.__mro__:
        nm = K.__module__
        if not nm.startswith('sporco.'):
            return None
        M = mods.get(nm[len('sporco.'):])
        if M is None:
            return None
        q = K.__name__
        if not isinstance(getattr(M, q, None), type) or q.startswith('_'):
            continue
        if K is not cls and len(K.__mro__) != len(cls.__mro__) - 1:
            return None                    # dynamic subclass adds nothing; anything else is unknown
        A = getattr(M, q)
        break
    else:
        return None

    def conv(v):
        if isinstance(v, cdict.ConstrainedDict):
            oc = A.Options if hasattr(A, 'Options') else None
            if oc is None:
                for x in a:
                    if isinstance(x, type):
                        oc = getattr(mods[x.__module__[len('sporco.'):]], x.__name__).Options
            w = plain_opt(v, mods)
            if 'xmethod' in k:
                return oc(w, k['xmethod'], k['dmethod'])
            return oc(w)
        if isinstance(v, type) and v.__module__.startswith('sporco.'):
            return getattr(mods[v.__module__[len('sporco.'):]], v.__name__)
        return v
    return A(*[conv(v) for v in a], **{q: conv(v) for q, v in k.items()})


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase(), 'o': p13.RUN, 'p': p13.PRUN, 'which': st.sampled_from(['plain', 'backend', 'backend'])}),
           quick=2000, shards=8, budget=12)
def variant(case, t):
    o, p = dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    m, mk, inner = p13.build(case['w'], o, p)
    which = case['which']
    n = o['n'][0] + 1
    x = {}
    if 'CG' in inner(mk({})).opt:
        x['CG'] = {'MaxIter': 1000, 'StopTol': 1e-12}
    b = mk(x)
    h = run(b, inner(b), n)
    found, mods = capture(mk, x), alt.plain() if which == 'plain' else alt.backend()
    with alt.active(mods):
        q = rebuild(mods, found, which)
        hq = None if q is None else run(q, inner(q), n)
    if q is None:
        t.skip('no counterpart')
    if not ok(h):
        t.skip('diverged')
    what = '%s: %s variant' % (name(m), which)
    loose = isloose(m, o, p)
    its = b.getitstat()
    k = exact(its, q.getitstat())
    if np.abs(h[-1]['X']).max() < 1e-10:
        t.skip('zero solution')
    if k < len(h):
        t.label('residual at rounding level')
    same_history(t, hq[:k], h[:k], what, 1e-5 if loose else 1e-8)
    stats_close(t, q.getitstat(), its, what, 1e-4 if loose else 1e-7, n=k)
    x = y = None
    if k == len(h) and hasattr(b, 'reconstruct') and m.kind != 'MultiDict':
        x, y = b.reconstruct(), q.reconstruct()
    if isinstance(x, np.ndarray):
        t.close(y, x, 1e-5 if loose else 1e-8, 1e-9, msg=what + ': reconstruct()')
    t.label(which + ' ' + name(m))
    moving(t, h)


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('bpdn', 'wbpdn', 'conv', 'mask', 'par', 'parmask', 'online', 'online', 'onlinemask')),
                                  'o': dlm.OPTS, 'n': st.integers(1, 3)}), quick=300, shards=8, budget=8)
def learnvariant(case, t):
    from checks.p14 import lsnap
    c, o = case['c'], case['o']
    m = dlm.Model(dict(c, nproc=0))
    which = 'backend' if m.kind.startswith('online') and c['seed'] % 2 else 'plain'
    found, mods = capture(lambda: m.make(o, {} if m.online else {'MaxMainIter': 1})), alt.plain() if which == 'plain' else alt.backend()
    with alt.active(mods):
        q = rebuild(mods, found, which)
    if q is None:
        t.skip('no counterpart')
    b = m.make(o, {} if m.online else {'MaxMainIter': 1})
    loose = o['bt'] != 'none' or o['auto'] != 'off' or o['mono'] or m.dm == 'cg'
    what = '%s(%s,%s): %s variant' % (m.kind, m.xm, m.dm, which)
    D0 = None
    for k in range(case['n']):
        if m.online:
            r = dlm.Model(dict(c, seed=c['seed'] + 2 * k))
            D = m.feed(b, r.S, r.W)
            with alt.active(mods):
                E = m.feed(q, r.S, r.W)
        else:
            D = b.solve()
            with alt.active(mods):
                E = q.solve()
        if not np.all(np.isfinite(D)):
            t.skip('diverged')
        if not m.online:
            unused(t, b.getcoef().T if m.kind in ('bpdn', 'wbpdn') else b.getcoef())
        t.close(E, D, 1e-4 if loose else 1e-7, 1e-8, msg='%s: step %d' % (what, k))
        D0 = D if D0 is None else D0
    t.label(what)
    t.nontrivial(case['n'] > 1 and not np.array_equal(D0, D))


@CHECK.sub(st.fixed_dictionaries({'w': p13.anycase(), 'o': p13.RUN, 'p': p13.PRUN, 'th': st.sampled_from([2, 4])}), quick=240, shards=4, budget=8)
def threads(case, t):
    o, p = dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    m, mk, inner = p13.build(case['w'], o, p)
    hs, e = [], 3
    old = sporco.fft.pyfftw_threads
    for th in (1, case['th']):
        sporco.fft.pyfftw_threads = th
        try:
            b = mk({})
            hs.append(run(b, inner(b), 3))
            e = min(e, exact(b.getitstat()))
        finally:
            sporco.fft.pyfftw_threads = old
    if not ok(hs[0]):
        t.skip('diverged')
    same_history(t, hs[1][:e], hs[0][:e], name(m) + ': %d transform threads' % case['th'], 1e-5 if isloose(m, o, p) else 1e-8)
    t.label(m.kind)
    moving(t, hs[0])
