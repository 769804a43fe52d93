"""P24: the convolutional solvers commute with the symmetries of their problem."""
import copy
import numpy as np
from sporco.admm import cbpdnin
from vlib.core import Check, st, rng, seeds
from vlib import solvers as sv
from vlib import dupd, densem, dlm, sym
from vlib.statm import grab
from checks import p13, p16
from checks.p15 import same_history, name
from checks.p17 import admm_opts, history, only, okay, moved, PPLAIN

CHECK = Check('P24', rule='the transformation changed the problem and the iterates changed',
              assumptions=['pairs of runs of the same class are related iteration by iteration (explicit penalty or step size, no '
                           'stopping tolerance); penalty adaptation is on only for transformations that preserve norms, and '
                           'histories are compared until a residual reaches rounding level',
                           'independent signals (or channels) are compared with penalty adaptation, backtracking and stopping off, '
                           'which couple them through joint norms by design',
                           'monotone steps and histories with a backtracking test tied to rounding are not compared',
                           'isotropic total variation with one-sided differences, and inhibition with a (periodic, so one-sided) window, '
                           'are not invariant to reversal (the former in more than one dimension); boundary restrictions (NoBndryCross) are not shift invariant'])

SEP = ['ConvBPDN', 'ConvElasticNet', 'ConvBPDNGradReg', 'ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd',
       'ConvBPDNScalarTV', 'ConvBPDNVectorTV', 'pgm.ConvBPDN', 'pgm.ConvBPDNMask']
KINDS = sv.ADMM_EQ * 2 + sv.ADMM_2B * 2 + sv.ADMM_TV * 2 + sv.PDCSC + sv.WRAP + sv.PGM * 3 + sv.PAR
RUN = st.fixed_dictionaries({'n': st.integers(2, 6), 'rho': st.sampled_from([0.3, 1.0, 4.0]), 'relax': st.sampled_from([1.0, 1.5, 1.8]),
                             'aux': st.booleans(), 'mag': st.just(1.0), 'auto': st.sampled_from([False, False, True])})
PISO = p13.PRUN.map(lambda p: dict(p, mono=False, step='none', tol=0.0, stop=None))
FIELDS = ('ObjFun', 'DFid', 'RegL1', 'RegL2', 'RegL21', 'RegGrad', 'RegTV', 'Cnstr', 'Rho', 'L', 'RegLat', 'RegSelf')
RSDL = ('PrimalRsdl', 'DualRsdl', 'EpsPrimal', 'EpsDual', 'Rsdl')


def cutX(m, h):
    """The coefficient maps (without the impulse maps of AddMaskSim)."""
    M = m.p.M
    return [{'X': c['X'][..., :M]} for c in h]


def opts(m, o, p, mul=1.0, auto=None):
    if m.kind.startswith('pgm'):
        d = p13.pgm_common(p, m.lipA * max(m.Wi.max()**2, 1e-3))
        d['L'] *= mul
        return d
    d = admm_opts(o, m.rho0() * mul)
    if o['auto'] and auto:
        d['AutoRho'] = {'Enabled': True, 'Period': 1}
    return d


def sound(*its):
    """Iterations before a residual or its normalisation is at rounding level."""
    n = len(its[0].Iter)
    for i in its:
        for f in RSDL:
            if f in i._fields:
                v = np.array(getattr(i, f), dtype=float)
                n = min([n] + list(np.flatnonzero(~((v > 1e-9) & (v < 1e6)))))
    return n + 1 if n < len(its[0].Iter) else n


def drive(m, d, n):
    if m.kind == 'ParConvBPDN':
        b = m.make(dict(d, MaxMainIter=1), nproc=1, par=1)
        h = []
        for k in range(min(n, 4)):
            b.solve()
            h.append({'X': np.array(b.getcoef(), copy=True)})
        return b, h
    b = m.make(d)
    return b, history(b, getattr(b, 'cbpdn', b), n)


def tied(t, its):
    """A backtracking test decided by rounding."""
    if 'F_Btrack' in its._fields:
        f, q = np.array(its.F_Btrack, dtype=float), np.array(its.Q_Btrack, dtype=float)
        if np.any(np.abs(f - q) <= 1e-8 * (np.abs(f) + np.abs(q)) + 1e-12):
            t.skip('backtracking test tied')


def compare(t, what, ha, hb, fX, tol, n=None):
    """Histories hb of the transformed problem against the mapped ha."""
    n = min(len(ha), len(hb)) if n is None else n
    for k in range(n):
        a, b = fX(ha[k]['X']), hb[k]['X']
        t.eq(b.shape, a.shape, '%s: shape' % what)
        t.close(b, a, tol, tol * 1e-2 + tol * np.abs(a).max(initial=0), msg='%s: iteration %d: X' % (what, k))


# -- norm preserving transformations -----------------------------------------------------

def iso(m, tr, rs):
    """(transformed model, coefficient map) or None when not applicable."""
    p, n = m.p, m.n
    if tr == 'shift':
        f = sym.roll(n, tuple(int(rs.randint(-N, N + 1)) for N in p.Nv))
        return sym.csc(m, fS=f, fX=f), f
    if tr == 'perm':
        pm = rs.permutation(p.M)
        f = sym.take(n + 2, pm)
        return sym.csc(m, fD=f, fX=f, fg=lambda g: g[pm]), f
    if tr == 'signals':
        f = sym.take(n + 1, rs.permutation(p.K))
        return sym.csc(m, fS=f, fX=f), f
    if tr == 'channels':
        if m.kind == 'MultiDict' or p.C == 1:
            return None
        pm = rs.permutation(p.C)
        f = sym.take(n, pm)
        if m.B is not None:
            return sym.csc(m, fS=f, fB=lambda B: B[pm]), lambda X: X
        if p.Cd > 1:
            return sym.csc(m, fD=f, fS=f), lambda X: X
        return sym.csc(m, fS=f, fX=f), f
    if tr == 'basis':
        if m.B is None:
            return None
        pm = rs.permutation(m.B.shape[1])
        f = sym.take(n, pm)
        return sym.csc(m, fX=f, fB=lambda B: B[:, pm]), f
    if tr == 'transpose':
        if n < 2:
            return None
        f = sym.perm_axes(n, rs.permutation(n))
        return sym.csc(m, fD=f, fS=f, fX=f), f
    if tr == 'single':
        if n > 2:
            return None
        f = sym.insert(int(rs.randint(n + 1)))
        return sym.csc(m, fD=f, fS=f, fX=f, n=n + 1), f
    if tr == 'flip':
        if m.eff in sv.ADMM_TV and n > 1:
            return None
        fS = sym.reverse(n)
        sh = tuple(-(k - 1) for k in p.Di.shape[:n])

        def fX(X):
            return np.roll(fS(X), sh, axis=tuple(range(n)))
        return sym.csc(m, fD=lambda D: np.flip(D, tuple(range(n))), fS=fS, fX=lambda V: fX(V)), fX
    if tr == 'fshift':
        if m.eff in sv.ADMM_TV and m.eff == 'ConvBPDNVectorTV':
            return None
        room = [N - k for N, k in zip(p.Nv, p.Di.shape[:n])]
        if m.eff in ('ConvBPDNJoint', 'ConvBPDN') and m.w.ndim == 0:
            S = [tuple(int(rs.randint(r + 1)) for r in room) for _ in range(p.M)]
        else:
            S = [tuple(int(rs.randint(r + 1)) for r in room)] * p.M
        ext = tuple(k + max(s[i] for s in S) for i, k in enumerate(p.Di.shape[:n]))

        def fD(D):
            out = np.zeros(ext + D.shape[n:], dtype=D.dtype)
            for j, s in enumerate(S):
                out[tuple(slice(a, a + k) for a, k in zip(s, D.shape[:n])) + (Ellipsis, j)] = D[..., j]
            return out

        def fX(X):
            if X.shape[-1] == 1 and p.M > 1:
                return X
            return np.stack([np.roll(X[..., j], tuple(-a for a in S[j]), axis=tuple(range(n))) for j in range(p.M)], axis=-1)
        if m.l21 is not None:
            return None if len(set(S)) > 1 else (sym.csc(m, fD=fD, fX=fX), fX)
        return sym.csc(m, fD=fD, fX=fX), fX
    if tr == 'neg':
        if m.nn:
            return None
        f = lambda V: -V
        q = sym.csc(m, fS=f)
        if m.W is not None:
            q.W = m.W
        return q, f
    if tr == 'negfilt':
        sg = rs.choice([-1.0, 1.0], size=p.M)
        if m.nn or m.eff == 'ConvBPDNVectorTV' and False:
            return None
        f = lambda X: X * sg if X.shape[-1] > 1 or p.M == 1 else X
        return sym.csc(m, fD=lambda D: D * sg), f
    if tr == 'c2k':
        if m.eff not in SEP or m.kind == 'MultiDict' or p.lay['name'] not in ('C1', 'C1d', 'CK1', 'CK1d'):
            return None
        f = sym.chan_to_sig(n)
        full = lambda V: f(np.broadcast_to(V, p.Nv + (p.C, p.K, 1))) if V.shape[n] > 1 or V.shape[n + 1] > 1 else V
        fX = lambda V: f(V) if V.shape[n:n + 2] != (1, 1) else V
        return sym.csc(m, fS=full, fX=fX, name='K', dimK=1), fX
    raise KeyError(tr)


TR = ['shift', 'shift', 'perm', 'perm', 'signals', 'channels', 'basis', 'transpose', 'single', 'flip', 'fshift', 'neg', 'negfilt', 'c2k', 'c2k']


def prep(c, tr):
    """Restrictions the symmetry needs."""
    c = dict(c)
    if set(tr) & {'shift', 'flip', 'fshift', 'transpose'}:
        c['nb'] = c['nb'] and not set(tr) & {'shift', 'flip', 'fshift'}
    return c


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(KINDS, maxN=(9, 5, 3), maxK=3), 'o': RUN, 'p': PISO,
                                  'tr': st.lists(st.sampled_from(TR), min_size=1, max_size=2), 'ts': seeds()}), quick=2400, shards=8, budget=12)
def isometry(case, t):
    o, p = case['o'], dict(case['p'], tol=0.0)
    m = sv.Model(prep(case['c'], case['tr']))
    rs = rng(case['ts'], 91)
    q, maps, done = m, [], []
    for tr in case['tr']:
        r = iso(q, tr, rs)
        if r is not None:
            q, f = r
            maps.append(f)
            done.append(tr)
    if not done:
        t.skip('no applicable transformation')

    def fX(X):
        for f in maps:
            X = f(X)
        return X
    a, ha = drive(m, opts(m, o, p, auto=True), o['n'])
    d = opts(m, o, p, auto=True)
    b, hb = drive(q, d, o['n'])
    okay(t, ha)
    what = '%s under %s' % (name(m), '+'.join(done))
    ia, ib = a.getitstat(), b.getitstat()
    tied(t, ia)
    adapt = (o['auto'] and not m.kind.startswith('pgm')) or (m.kind.startswith('pgm') and p['bt'] != 'none')
    n = p16.exact(ia, ib) if adapt else None
    tol = 1e-6 if adapt else 1e-8
    t.eq(len(hb), len(ha), what + ': number of iterations')
    compare(t, what, cutX(m, ha), cutX(q, hb), fX, tol, n)
    p16.stats_close(t, ib, ia, what, tol * 10, FIELDS, n=n)
    p16.stats_close(t, ib, ia, what, tol * 100, RSDL, n=sound(ia, ib))
    if n is None:
        X = np.asarray(a.getcoef())
        if X.ndim == m.n + 3 and m.kind != 'AddMaskSim':
            t.close(b.getcoef(), fX(X), tol, tol, msg=what + ': getcoef()')
    for tr in done:
        t.label('%s %s' % (name(m), tr))
    t.nontrivial(moved(ha) and (q.p.S.shape != m.p.S.shape or not np.array_equal(q.p.S, m.p.S) or q.p.D.shape != m.p.D.shape or
                                not np.array_equal(q.p.D, m.p.D)))


# -- independent signals and channels -------------------------------------------------------

def part(m, axis, k):
    n, p = m.n, m.p
    f = lambda V: np.take(V, [k], axis=axis) if V.shape[axis] > 1 else V
    nm = p.lay['name']
    if axis == n + 1:
        return sym.csc(m, fS=f, fX=f, name={'K': 'plain', 'CK1': 'C1', 'CK1d': 'C1d', 'CKm': 'Cm'}[nm], dimK=0), f
    return sym.csc(m, fS=f, fX=f, name={'C1': 'plain', 'C1d': 'plain', 'CK1': 'K', 'CK1d': 'K'}[nm], dimK={'C': 0}.get(nm[:1]) if nm in ('C1', 'C1d') else 1), f


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(KINDS, maxN=(9, 5, 3), maxK=3, names=('K', 'CK1', 'CK1d', 'CKm', 'C1', 'C1d')), 'o': RUN, 'p': PPLAIN,
                                  'by': st.sampled_from(['signal', 'signal', 'channel'])}), quick=1200, shards=8, budget=8)
def batch(case, t):
    """Several signals (channels of separable problems) processed jointly."""
    o, p, c = case['o'], dict(case['p'], tol=0.0), case['c']
    nm = c['lay']['name']
    if c['kind'] in sv.PDCSC and nm not in ('C1', 'CK1', 'C1d', 'CK1d') or c['kind'] == 'MultiDict' and nm != 'CKm':
        t.skip('layout')
    m = sv.Model(c)
    n = m.n
    if case['by'] == 'signal':
        if nm not in ('K', 'CK1', 'CK1d', 'CKm'):
            t.skip('layout')
        axis, N = n + 1, m.p.K
    else:
        if m.eff not in SEP or nm not in ('C1', 'C1d', 'CK1', 'CK1d') or m.kind == 'MultiDict':
            t.skip('layout')
        axis, N = n, m.p.C
    if N == 1 and case['by'] == 'channel':
        t.skip('one channel')
    d = opts(m, o, p)
    a, ha = drive(m, d, o['n'])
    okay(t, ha)
    obj = np.zeros(len(ha))
    for k in range(N):
        q, f = part(m, axis, k)
        b, hb = drive(q, opts(m, o, p), o['n'])
        what = '%s: %s %d of %d' % (name(m), case['by'], k, N)
        compare(t, what, cutX(m, ha), cutX(q, hb), f, 1e-8)
        if 'ObjFun' in b.getitstat()._fields:
            obj += np.array(b.getitstat().ObjFun, dtype=float)
    if 'ObjFun' in a.getitstat()._fields:
        v = np.array(a.getitstat().ObjFun, dtype=float)
        if np.all(np.isfinite(v)):
            t.close(v, obj, 1e-7, 1e-9 * (1 + np.abs(v).max()), msg='%s: objective against the sum over separate runs' % name(m))
    t.label('%s %s' % (name(m), case['by']))
    t.nontrivial(moved(ha) and N > 1)


# -- scaling -----------------------------------------------------------------------------------

def scaled(m, how, a):
    """(model, factor of X, factor of the penalty, factor of the objective) or None."""
    e = m.eff
    one = e not in sv.ADMM_2B + sv.PAR + ['ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint']
    q = None
    if how == 'signal':
        q = sym.csc(m, fS=lambda V: V * a)
        q.W = m.W
        if m.kind in sv.L1FID:
            q.mu = m.mu / a
            return q, a, 1 / a, a
        if e == 'ConvMinL1InL2Ball':
            q.epsilon = m.epsilon * a
            return q, a, 1 / a, a
        q.lmbda = m.lmbda * a
        if e in ('ConvBPDNJoint', 'ConvProdDictBPDNJoint') or e in sv.ADMM_TV:
            q.mu = m.mu * a
        if e == 'ConvBPDNProjL1':
            q.gamma = m.gamma * a
        return q, a, 1.0, a * a
    if how == 'dict':
        if not one or e == 'ConvBPDNRecTV' or m.kind == 'AddMaskSim':
            return None
        q = sym.csc(m, fD=lambda V: V * a)
        q.lmbda = m.lmbda * a
        if e in ('ConvElasticNet', 'ConvBPDNGradReg'):
            q.mu = m.mu * a * a
        elif e in ('ConvBPDNJoint', 'ConvProdDictBPDNJoint') or e in sv.ADMM_TV:
            q.mu = m.mu * a
        if e == 'ConvBPDNProjL1':
            q.gamma = m.gamma / a
        return q, 1 / a, a * a, 1.0
    if how == 'l1w':
        if e in ('ConvBPDNProjL1', 'ConvMinL1InL2Ball', 'ConvProdDictL1L1GrdJoint') or m.kind == 'AddMaskSim':
            return None
        q = copy.copy(m)
        q.w = np.asarray(m.w * a)
        q.c = dict(m.c, wl1='scaled')
        q.lmbda = m.lmbda / a
        return q, 1.0, 1.0, 1.0
    if how == 'reg':
        if m.g is None or e not in sv.GRADW or m.kind == 'AddMaskSim':
            return None
        q = copy.copy(m)
        q.g = np.asarray(m.g * a)
        q.mu = m.mu / a
        return q, 1.0, 1.0, 1.0
    if how == 'l21':
        if m.l21 is None:
            return None
        q = copy.copy(m)
        q.l21 = m.l21 * a
        if e == 'ConvProdDictL1L1GrdJoint':
            q.lmbda = m.lmbda / a
        else:
            q.mu = m.mu / a
        return q, 1.0, 1.0, 1.0
    raise KeyError(how)


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(KINDS, maxN=(9, 5, 3)), 'o': RUN, 'p': PISO, 'a': st.sampled_from([0.01, 0.5, 2.0, 3.0, 100.0]),
                                  'how': st.sampled_from(['signal', 'signal', 'signal', 'dict', 'l1w', 'reg', 'l21'])}), quick=1600, shards=8, budget=8)
def scale(case, t):
    o, p, a = case['o'], case['p'], case['a']
    m = sv.Model(case['c'])
    r = scaled(m, case['how'], a)
    if r is None:
        t.skip('not applicable')
    q, fx, frho, fobj = r
    b0, ha = drive(m, opts(m, o, p), o['n'])
    okay(t, ha)
    b1, hb = drive(q, opts(m, o, p, frho), o['n'])
    what = '%s with %s scaled by %g' % (name(m), case['how'], a)
    ia, ib = b0.getitstat(), b1.getitstat()
    tied(t, ia)
    loose = m.kind.startswith('pgm') and p['bt'] != 'none'
    n = p16.exact(ia, ib) if loose else None
    tol = 1e-6 if loose else 1e-8
    n = len(ha) if n is None else n
    for k in range(n):
        X = ha[k]['X'][..., :m.p.M] * fx
        t.close(hb[k]['X'][..., :m.p.M], X, tol, tol * np.abs(X).max(initial=0) + 1e-10 * fx, msg='%s: iteration %d: X' % (what, k))
    if 'ObjFun' in ia._fields:
        x, y = (np.array(v.ObjFun, dtype=float)[:n] for v in (ib, ia))
        if np.all(np.isfinite(y)):
            t.close(x, y * fobj, tol * 10, tol * 10 * np.abs(y * fobj).max(initial=0) + 1e-10 * fobj, msg=what + ': objective')
    t.label('%s %s' % (name(m), case['how']))
    t.nontrivial(moved(ha))


# -- replication as channels ----------------------------------------------------------------------

@CHECK.sub(st.fixed_dictionaries({'c': sv.case(SEP * 2 + ['ConvBPDNProjL1', 'ConvBPDNJoint', 'ConvBPDNRecTV'] * 2, maxN=(9, 5, 3), names=('plain', 'K')),
                                  'o': RUN, 'p': PPLAIN, 'r': st.integers(2, 3), 'md': st.booleans()}), quick=1000, shards=8, budget=8)
def replicate(case, t):
    """The problem repeated as r channels, with the same or a repeated dictionary."""
    o, p, r = case['o'], dict(case['p'], tol=0.0), case['r']
    m = sv.Model(case['c'])
    n, e = m.n, m.eff
    rep = lambda V: np.repeat(V, r, axis=n)
    nm = m.p.lay['name']
    mul = 1.0
    W, sp = m.W, m.W is not None and m.W.ndim == n
    m.W = None if sp else W
    if case['md']:
        if e in sv.ADMM_2B or e == 'ConvBPDNRecTV':
            t.skip('not applicable')
        q = sym.csc(m, fD=rep, fS=rep, name={'plain': 'Cm', 'K': 'CKm'}[nm])
        q.lmbda, q.mu = m.lmbda * r, m.mu * r
        mul = float(r)
        fX = lambda X: X
    else:
        q = sym.csc(m, fS=rep, name={'plain': 'C1', 'K': 'CK1'}[nm], dimK={'plain': 0, 'K': 1}[nm])
        if m.w.ndim:
            q.w = rep(m.w) if m.c['wl1'] != 'filt' else m.w
        if e in ('ConvBPDNJoint', 'ConvBPDNRecTV'):
            q.mu = m.mu * np.sqrt(r)
        if e == 'ConvBPDNProjL1':
            q.gamma = m.gamma * r
        fX = rep
    if sp:
        q.W = m.W = W
    a, ha = drive(m, opts(m, o, p), o['n'])
    okay(t, ha)
    b, hb = drive(q, opts(m, o, p, mul), o['n'])
    what = '%s replicated as %d channels%s' % (m.kind, r, ' with the dictionary' if case['md'] else '')
    compare(t, what, ha, hb, fX, 1e-8)
    if e not in ('ConvBPDNProjL1', 'ConvMinL1InL2Ball'):
        x, y = (np.array(v.getitstat().ObjFun, dtype=float) for v in (b, a))
        if np.all(np.isfinite(y)):
            t.close(x, r * y, 1e-7, 1e-9 * (1 + np.abs(y).max()), msg=what + ': objective')
    t.label('%s %s' % (m.kind, 'md' if case['md'] else 'sd'))
    t.nontrivial(moved(ha))


# -- inhibition -------------------------------------------------------------------------------------

@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ConvBPDN'], maxN=(10, 6, 4)), 'o': RUN, 'tr': st.lists(st.sampled_from(
    [x for x in TR if x not in ('fshift', 'flip', 'perm', 'single', 'negfilt', 'basis', 'c2k')] + ['perm', 'scale', 'batch']), min_size=1, max_size=2),
    'ts': seeds(), 'g': st.sampled_from(['none', 'bin', 'bin', 'wgt']), 'gam': st.sampled_from([0.0, 0.1, 0.5]), 'mu': st.sampled_from([0.1, 0.5]),
    'win': st.integers(1, 4), 'sm': st.sampled_from([0.9, 0.5])}), quick=500, shards=4, budget=6)
def inhibition(case, t):
    """The same for the solver with inhibition terms."""
    # the target of the penalty adaptation depends on lmbda
    o = dict(case['o'], auto=case['o']['auto'] and 'scale' not in case['tr'])
    m = sv.Model(prep(case['c'], case['tr']))
    rs = rng(case['ts'], 92)
    M = m.p.M
    G = rs.randint(1, 4)
    Wg = None if case['g'] == 'none' else (rs.rand(G, M) < 0.6) * (1.0 if case['g'] == 'bin' else 0.3 + rs.rand(G, M))
    win = min(case['win'], min(m.p.Nv))
    win -= (win % 2 == 0 and win >= min(m.p.Nv))
    mu, gam = case['mu'] * m.lmbda, case['gam'] * m.lmbda

    def make(q, W, mu, gam, d):
        d = dict(q.base_opts(), **d)
        return cbpdnin.ConvBPDNInhib(q.p.D.copy(), q.p.S.copy(), None if W is None else W.copy(), win, ('tukey', 0.5), q.lmbda, mu, gam,
                                     cbpdnin.ConvBPDNInhib.Options(dict(d, SmoothWeight=case['sm'])), **q.p.kw)

    def go(q, W):
        b = make(q, W, mu, gam, opts(m, o, {}, auto=True))
        return b, history(b, b, o['n'])
    a, ha = go(m, Wg)
    okay(t, ha)
    ia = a.getitstat()
    q, maps, done, fx, W2 = m, [], [], 1.0, Wg
    for tr in case['tr']:
        if tr == 'batch':
            continue
        if tr == 'scale':
            q = sym.csc(q, fS=lambda V: V * 4.0)
            q.lmbda = q.lmbda * 4.0
            fx *= 4.0
        elif tr == 'perm':
            pm = rs.permutation(M)
            f = sym.take(m.n + 2, pm)
            q = sym.csc(q, fD=f, fX=f)
            W2 = None if W2 is None else W2[:, pm]
            maps.append(f)
        else:
            r = iso(q, tr, rs)
            if r is None:
                continue
            q, f = r
            maps.append(f)
        done.append(tr)
    if not done and 'batch' not in case['tr']:
        t.skip('no applicable transformation')

    def fX(X):
        for f in maps:
            X = f(X)
        return X * fx
    n = p16.exact(ia) if o['auto'] else None
    tol = 1e-6 if o['auto'] else 1e-8
    if done:
        what = 'ConvBPDNInhib under ' + '+'.join(done)
        b, hb = go(q, W2)
        compare(t, what, ha, hb, fX, tol, n)
        if fx == 1.0:
            p16.stats_close(t, b.getitstat(), ia, what, tol * 10, FIELDS, n=n)
    elif m.p.lay['name'] in ('K', 'CK1', 'CK1d', 'CKm') and not o['auto']:
        for k in range(m.p.K):
            q, f = part(m, m.n + 1, k)
            b, hb = go(q, Wg)
            compare(t, 'ConvBPDNInhib: signal %d' % k, ha, hb, f, tol)
        done = ['batch']
    for tr in done:
        t.label(tr)
    t.nontrivial(bool(done) and moved(ha))


# -- dictionary updates --------------------------------------------------------------------------------

def spec_axes(m, f):
    """Transform the spatial part of a uniform size specification."""
    return tuple(f(list(m.spec[:m.n]))) + tuple(m.spec[m.n:])


def shared(m, tr, rs, coef):
    """Transformations common to dictionary updates and learning:
    keyword arguments for sym.dup / sym.dl, and the dictionary map."""
    n = m.n
    uni = m.d['form'] in 'AB'
    i = lambda V: V
    if tr == 'shift':
        sh = tuple(int(rs.randint(-N, N + 1)) for N in m.Nv)
        f = sym.roll(n, sh)
        return dict(fS=f, **{coef: f}), i, f
    if tr == 'kperm':
        f = sym.take(n + 1, rs.permutation(m.K))
        return dict(fS=f, **{coef: f}), i, f
    if tr == 'cperm':
        if m.C == 1 or (m.Cd > 1 and m.d['form'] not in 'BD'):
            return None
        f = sym.take(n, rs.permutation(m.C))
        if m.Cd > 1:
            return dict(fS=f, fD=f), f, i
        return dict(fS=f, **{coef: f}), i, f
    if tr == 'neg':
        if getattr(m, 'nn', False):
            return None
        f = lambda V: -V
        return dict(neg=True), i, f
    if tr == 'c2k':
        if m.Cd > 1 or m.C == 1 or m.d['form'] not in 'AC':
            return None
        g = sym.chan_to_sig(n)
        fS = lambda V: g(np.broadcast_to(V, m.Nv + (m.C, m.K, 1))) if V.shape[n:n + 2] != (1, 1) else V
        fZ = lambda V: g(V) if V.shape[n:n + 2] != (1, 1) else V
        return {'fS': fS, coef: fZ, 'sC': False, 'sK': True}, i, fZ
    if not uni:
        return None
    if tr == 'perm':
        f = sym.take(n + 2, rs.permutation(m.M))
        return dict(fD=f, **{coef: f}), f, f
    if tr == 'negfilt':
        sg = rs.choice([-1.0, 1.0], size=m.M)
        f = lambda V: V * sg
        return None if getattr(m, 'nn', False) or coef == 'fX' else (dict(fD=f, **{coef: f}), f, f)
    if tr == 'transpose':
        if n < 2:
            return None
        pm = rs.permutation(n)
        f = sym.perm_axes(n, pm)
        return dict(fD=f, fS=f, spec=spec_axes(m, lambda v: [v[k] for k in pm]), **{coef: f}), f, f
    if tr == 'single':
        if n > 2:
            return None
        a = int(rs.randint(n + 1))
        f = sym.insert(a)
        return dict(fD=f, fS=f, n=n + 1, spec=spec_axes(m, lambda v: v[:a] + [1] + v[a:]), **{coef: f}), f, f
    raise KeyError(tr)


DTR = ['shift', 'kperm', 'cperm', 'neg', 'c2k', 'perm', 'perm', 'negfilt', 'transpose', 'single']


@CHECK.sub(st.fixed_dictionaries({'c': dupd.case(dupd.CONV * 2 + dupd.MASK, dimNs=(1, 2, 2, 3)), 'o': RUN, 'p': PPLAIN, 'tr': st.sampled_from(DTR), 'ts': seeds()}),
           quick=1600, shards=8, budget=9)
def disometry(case, t):
    """Dictionary update: the dictionary only changes by the matching rearrangement."""
    o, p = case['o'], dict(case['p'], tol=0.0)
    m = dupd.Model(case['c'])
    r = shared(m, case['tr'], rng(case['ts'], 93), 'fZ')
    if r is None:
        t.skip('not applicable')
    kw, fD, fZ = r
    kw = dict(kw)
    if kw.pop('neg', False):
        q = copy.copy(m)
        q.Z, q.S, q.Si = -m.Z, -m.S, -m.Si
    else:
        q = sym.dup(m, **kw)
    if case['tr'] == 'c2k' and m.kind.startswith('md.') and m.kind != 'md.cns' and m.c['init'] != 'none':
        m.c = dict(m.c, init='none')
        q.c = m.c

    def go(w):
        if m.pgm:
            d = dict(p13.pgm_common(p, m.lip()), **w.init())
        else:
            d = dict(admm_opts(o, 1.0 if m.kind.startswith('md.') else m.lip()), AuxVarObj=o['aux'], **w.init())
            if o['auto']:
                d['AutoRho'] = {'Enabled': True, 'Period': 1}
            if m.kind.endswith('cg'):
                d['CG'] = {'MaxIter': 1000, 'StopTol': 1e-12}
        b = w.make(d)
        return b, history(b, b, o['n'])
    a, ha = go(m)
    okay(t, ha)
    if any(p13.projection_jump(m, c) for c in ha):
        t.skip('near-zero atom')
    b, hb = go(q)
    ia, ib = a.getitstat(), b.getitstat()
    adapt = o['auto'] and not m.pgm
    n = p16.exact(ia, ib) if adapt else len(ha)
    cg = m.kind.endswith('cg')
    tol = 1e-5 if cg else 1e-6 if adapt else 1e-8
    what = 'dictionary update %s under %s' % (m.kind, case['tr'])
    for k in range(n):
        for key in ('X', 'Y', 'var_y1'):
            V = ha[k].get(key)
            if V is None or V.size != int(np.prod(m.shpD)):
                continue
            V = fD(V.reshape(m.shpD))
            t.close(hb[k][key].reshape(V.shape), V, tol, tol, msg='%s: iteration %d: %s' % (what, k, key))
    p16.stats_close(t, ib, ia, what, tol * 10, FIELDS, n=n if adapt else None)
    p16.stats_close(t, ib, ia, what, tol * 100, RSDL, n=sound(ia, ib))
    if n == len(ha):
        V = fD(np.asarray(a.getdict(crop=False)).reshape(m.shpD))
        t.close(np.asarray(b.getdict(crop=False)).reshape(V.shape), V, tol, tol, msg=what + ': getdict()')
    t.label('%s %s' % (m.kind, case['tr']))
    t.nontrivial(moved(ha))


@CHECK.sub(st.fixed_dictionaries({'c': dupd.case(dupd.CONV * 2 + ['pgm.md', 'cmod', 'pgm.cmod', 'pgm.wcmod']), 'o': RUN, 'p': PPLAIN, 'how': st.sampled_from(['scale', 'dup']),
                                  'a': st.sampled_from([0.1, 2.0, 30.0]), 'r': st.integers(2, 3)}), quick=600, shards=8, budget=5)
def dscale(case, t):
    """Scaling signals and coefficients together, or repeating the training
    set, with the penalty (step) scaled accordingly leaves the dictionary alone."""
    o, p = case['o'], dict(case['p'], tol=0.0)
    c = dict(case['c'])
    if c['kind'] == 'cns' and case['how'] == 'scale':
        c['init'] = 'none'                 # an initial dictionary also sets the dual variable, from the penalty
    m = dupd.Model(c)
    a = case['a']
    if case['how'] == 'scale':
        q = copy.copy(m)
        q.Z, q.S, q.Si = m.Z * a, m.S * a, m.Si * a
        mul = a * a
    elif m.dense:
        q = copy.copy(m)
        rep = lambda V: np.concatenate([V] * case['r'], axis=-1)
        q.Z, q.S, q.Si = rep(m.Z), rep(m.S), rep(m.Si)
        q.W = None if m.W is None else rep(m.W)
        mul = float(case['r'])
    else:
        rep = lambda V: np.concatenate([V] * case['r'], axis=m.n + 1)
        W, sp = m.W, m.W is not None and m.W.ndim == m.n
        m.W = None if sp else W
        q = sym.dup(m, fS=rep, fZ=rep, sK=True)
        if sp:
            q.W = m.W = W
        mul = float(case['r']) if m.kind != 'cns' else 1.0

    def go(w, mul):
        if m.pgm:
            d = dict(p13.pgm_common(p, m.lip() * mul), **w.init())
        else:
            d = dict(admm_opts(o, m.lip() * mul), AuxVarObj=o['aux'], **w.init())
            if m.kind.endswith('cg'):
                d['CG'] = {'MaxIter': 1000, 'StopTol': 1e-12}
        b = w.make(d)
        return b, history(b, b, o['n'])
    b0, ha = go(m, 1.0)
    okay(t, ha)
    if any(p13.projection_jump(m, c) for c in ha):
        t.skip('near-zero atom')
    b1, hb = go(q, mul)
    tol = 1e-5 if m.kind.endswith('cg') else 1e-8
    what = 'dictionary update %s, %s' % (m.kind, 'scaled by %g' % a if case['how'] == 'scale' else 'training set repeated')
    for k in range(len(ha)):
        for key in ('X', 'Y'):
            V = ha[k].get(key)
            if V is not None and V.shape == hb[k][key].shape:
                t.close(hb[k][key], V, tol, tol, msg='%s: iteration %d: %s' % (what, k, key))
    t.close(b1.getdict(), b0.getdict(), tol, tol, msg=what + ': getdict()')
    t.label('%s %s' % (m.kind, case['how']))
    t.nontrivial(moved(ha))


# -- dictionary learning -----------------------------------------------------------------------------------

@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('conv', 'conv', 'mask', 'par', 'online', 'onlinemask'), dimNs=(1, 2, 2, 3)), 'o': dlm.OPTS, 'n': st.integers(1, 3),
                                  'tr': st.sampled_from([x for x in DTR if x != 'c2k']), 'ts': seeds()}), quick=700, shards=8, budget=10)
def lisometry(case, t):
    """Dictionary learning: shifting, reordering, negating, transposing the
    training signals changes the dictionary by the matching rearrangement."""
    o = dict(case['o'], auto='off', bt='none', mono=False)
    c = dict(case['c'], nproc=0)
    if case['tr'] == 'shift':
        c['nb'] = False
    m = dlm.Model(c)
    m.c = dict(m.c, wl1=m.c['wl1'])
    r = shared(m, case['tr'], rng(case['ts'], 94), 'fX')
    if r is None or m.online and case['tr'] == 'kperm' and m.w.ndim and m.w.shape[m.n + 1] > 1:
        t.skip('not applicable')
    kw, fD, fX = r
    kw = dict(kw)
    spec = kw.pop('spec', None)
    if kw.pop('neg', False):
        q = copy.copy(m)
        q.S, q.Si = -m.S, -m.Si
    else:
        if spec is not None:
            kw['fspec'] = lambda s: spec
        q = sym.dl(m, **kw)
    tol = 1e-4 if m.dm == 'cg' or m.online else 1e-7
    what = 'dictionary learning %s(%s,%s) under %s' % (m.kind, m.xm, m.dm, case['tr'])
    out = []
    for w in (m, q):
        D, X = [], []
        if m.online:
            b = w.make(o, {})
            for k in range(case['n']):
                D.append(np.array(w.feed(b, w.S.copy(), None if w.W is None else w.W.copy()), copy=True))
        else:
            b = w.make(o, {'MaxMainIter': 1})
            for k in range(case['n']):
                D.append(np.array(b.solve(), copy=True))
                X.append(np.array(b.getcoef(), copy=True))
        out.append((D, X, b.getitstat()))
    (D0, X0, i0), (D1, X1, i1) = out
    if not all(np.all(np.isfinite(D)) for D in D0):
        t.skip('diverged')
    for k in range(case['n']):
        if X0:
            p16.unused(t, X0[k])
            V = fX(X0[k].reshape(m.shpX))
            t.close(X1[k].reshape(V.shape), V, tol, tol * max(1.0, np.abs(V).max()), msg='%s: iteration %d: coefficients' % (what, k))
        V = fD(D0[k].reshape(D0[k].shape[:m.n] + (m.Cd, 1, m.M)))
        t.close(D1[k].reshape(V.shape), V, tol, tol, msg='%s: iteration %d: dictionary' % (what, k))
    p16.stats_close(t, i1, i0, what, tol * 10, ('ObjFun', 'DFid', 'RegL1'))
    t.label('%s %s' % (m.kind, case['tr']))
    t.nontrivial(any(np.any(X) for X in X0) if X0 else True)
