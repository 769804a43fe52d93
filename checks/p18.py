"""P18: dictionary learning keeps its dictionary feasible and its
bookkeeping truthful."""
import copy
import numpy as np
from vlib.core import Check, st, rng, seeds
from vlib import dlm, ref
from vlib import dsz as dz
from sporco.admm import bpdn as abpdn, cmod as acmod, cbpdn as acbpdn, ccmod as accmod, ccmodmd as accmodmd
from sporco.dictlrn import dictlrn
from sporco.pgm import bpdn as pbpdn, cmod as pcmod, cbpdn as pcbpdn, ccmod as pccmod

CHECK = Check('P18', rule='the learned dictionary differs from the initial one and the coefficients are not all zero',
              assumptions=['iterates are copied in a Callback after the statistics of the iteration were recorded',
                           'AccurateDFid: functionals at the current dictionary and coefficients; otherwise those of '
                           'the sparse coding step, at the dictionary that step used (documented)',
                           'weights of the weighted dense problem enter the data term unsquared (documented)',
                           'signals up to 9 samples per direction (6x6, 4x4x4), up to 3 training signals',
                           'coefficient constraints and l1 weights as given in the options of the sparse coding step'])


def snap(b, m):
    """State of a learner, copied in its callback."""
    d = {'j': b.j, 'D': np.array(b.getdict() if m.dense else b.getdict(crop=False), copy=True),
         'X': np.array(b.getcoef(), copy=True)}
    if not m.dense:
        d['Dc'] = np.array(b.getdict(), copy=True)
    if not m.par:
        for p, s in (('x', b.xstep), ('d', b.dstep)):
            for a in ('X', 'Y'):
                v = getattr(s, a, None)
                if isinstance(v, np.ndarray):
                    d[p + a] = np.array(v, copy=True)
            for a in ('var_y0', 'var_y1'):
                if hasattr(s, a):
                    try:
                        d[p + a] = np.array(getattr(s, a)(), copy=True)
                    except Exception:
                        pass
        d['xD'] = np.array(b.xstep.D, copy=True)
    return d


def tolof(m):
    return 2e-3 if m.dtype == np.float32 else 1e-8


def xfun(m, s, Dprev, b):
    """(DFid, RegL1, scale) the sparse coding step reports by itself."""
    opt = b.xstep.opt
    sS = float(np.sum(np.asarray(m.Si, dtype=float)**2))
    if m.xm == 'pgm':
        F = G = s['xX']
    elif m.kind == 'mask':
        if opt['AuxVarObj']:
            R = np.asarray(s['xvar_y0'], dtype=float)
            if R.shape != m.shpS:
                return None
            return 0.5 * float(np.sum(m.W2 * R**2)), m.l1(s['xvar_y1']), sS + float(np.sum(R**2))
        F = G = s['xX']
    else:
        F = s['xX'] if opt['fEvalX'] else s['xY']
        G = s['xY'] if opt['gEvalY'] else s['xX']
    sc = sS + float(np.sum(m.synth(Dprev, F)**2))
    return m.dfid(Dprev, F), m.l1(G), sc * max(1.0, m.W2.max())


def cnstr(m, s, b):
    opt = b.dstep.opt
    if m.dm == 'pgm':
        V = s['dX']
    elif m.kind == 'mask' and m.dm in ('ism', 'cg'):
        V = s['dvar_y1'] if opt['AuxVarObj'] else s['dX']
    elif m.dm == 'cns':
        V = s['dY'] if opt['gEvalY'] else np.mean(s['dX'], axis=-1)
    else:
        V = s['dY'] if opt['gEvalY'] else s['dX']
    V = np.asarray(V, dtype=float).reshape(m.shpD)
    w = np.where(m.supp, V, 0)
    ax = (0,) if m.dense else tuple(range(m.n + 1))
    if np.any(np.sqrt(np.sum(w**2, axis=ax)) < 1e-2 * max(1.0, np.abs(V).max())) or m.zm:
        # normalisation is discontinuous at a zero atom
        P = m.proj(V)
        if np.linalg.norm(P - V) > 1e-6:
            return None
    return float(np.linalg.norm(m.proj(V) - V))


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('bpdn', 'wbpdn', 'conv', 'conv', 'mask', 'mask', 'par', 'parmask')),
                                  'o': dlm.OPTS, 'n': st.integers(1, 5), 'f32': st.sampled_from([False, False, False, True]),
                                  'split': st.booleans()}),
           quick=3000, shards=8, budget=20)
def batch(case, t):
    c, o = case['c'], case['o']
    m = dlm.Model(c, 'float32' if case['f32'] else 'float64')
    if m.par and c['nproc'] and c['seed'] % 4:
        # processes are expensive to start: most cases use the serial loop
        c['nproc'] = m.c['nproc'] = 0
    snaps = []
    b = m.make(o, {'MaxMainIter': case['n'], 'Callback': lambda x: snaps.append(snap(x, m))})
    what = '%s(%s,%s)' % (m.kind, m.xm, m.dm)
    tol = tolof(m)
    D0 = np.array(b.getdict() if m.dense else b.getdict(crop=False), copy=True)
    t.close(m.full(D0), m.D0n, 1e-4 if case['f32'] else 1e-10, 1e-6 if case['f32'] else 1e-12,
            msg=what + ': initial dictionary is the projected D0')
    R = b.solve()
    if case['split']:
        b.opt['MaxMainIter'] = 2
        R = b.solve()
    nt = case['n'] + (2 if case['split'] else 0)
    its = b.getitstat()
    t.eq(list(its.Iter), list(range(nt)), what + ': iteration indices')
    t.eq([s['j'] for s in snaps], list(range(nt)), what + ': attribute j')
    t.check(np.all(np.diff(np.asarray(its.Time)) >= 0), '%s: times decrease: %s', what, its.Time)
    Dp = m.D0n
    for k, s in enumerate(snaps):
        D, X = m.full(s['D']), s['X']
        if not (np.all(np.isfinite(D)) and np.all(np.isfinite(X))):
            t.skip('diverged')
        w = m.infeasible(s['D'])
        t.check(not w, '%s: iteration %d: %s', what, k, w)
        t.eq(X.shape, m.shpX, what + ': coefficient shape')
        t.check(X.dtype == m.dtype and s['D'].dtype == m.dtype, '%s: types %s, %s for %s', what, X.dtype, s['D'].dtype, m.dtype)
        if not m.dense:
            t.eq(s['Dc'].shape, m.msz + m.shpD[m.n:], what + ': cropped dictionary shape')
            t.same(m.full(s['Dc']), D, what + ': cropped against full dictionary')
        if not m.par:
            t.close(m.full(s['xD']), D, 1e-12, 0, msg=what + ': dictionary of the next sparse coding step')
        if m.nn and m.xm == 'admm':
            t.check(X.min() >= 0, '%s: negative coefficient %g', what, X.min())
        if m.par or o['acc']:
            sc = float(np.sum(np.asarray(m.Si, dtype=float)**2) + np.sum(m.synth(D, X)**2)) * max(1.0, m.W2.max())
            if m.kind == 'parmask' and not o['acc']:
                pass
            e = (m.dfid(D, X), m.l1(X), sc)
        else:
            e = xfun(m, s, Dp, b)
        if e is not None:
            df, rl, sc = e
            for f, v, z in (('DFid', df, sc), ('RegL1', rl, rl), ('ObjFun', df + m.lmbda * rl, sc + m.lmbda * rl)):
                g = float(getattr(its, f)[k])
                t.check(abs(g - v) <= tol * (abs(z) + abs(v)) + tol * 1e-2, '%s: iteration %d: %s reported %.12g, documented '
                        'functional %.12g', what, k, f, g, v)
        if not m.par:
            v = cnstr(m, s, b)
            if v is not None:
                g = float(its.Cnstr[k])
                t.check(abs(g - v) <= (1e-2 if case['f32'] else 1e-6) * (0.1 + v), '%s: iteration %d: Cnstr reported %.8g, '
                        'distance from the constraint set %.8g', what, k, g, v)
        Dp = D
    D, X = m.full(snaps[-1]['D']), snaps[-1]['X']
    t.same(np.asarray(R), snaps[-1]['D'] if m.dense else snaps[-1]['Dc'], what + ': returned dictionary')
    t.same(b.getcoef(), X, what + ': coefficients after solve')
    if not m.dense:
        want = m.synth(D, X)[..., 0]
        sc = np.abs(want).max()
        for r in (b.reconstruct(), b.reconstruct(X=X), b.reconstruct(D=m.crop(D).astype(m.dtype), X=X)):
            t.close(np.asarray(r).reshape(want.shape), want, 1e-4 if case['f32'] else 1e-9, 1e-9, msg=what + ': reconstruct')
    t.label(what)
    t.label('dsz', not m.dense and m.dsz is not None)
    t.nontrivial(np.any(X) and np.abs(D - m.D0n).max() > 1e-6)


# -- the alternation is that of the two separate solvers ----------------------

def parts(m, b):
    """Separate sparse coding and dictionary update objects with the same
    options and the same start."""
    kx, kd = m.keys()
    ox, od = copy.deepcopy(b.opt[kx]), copy.deepcopy(b.opt[kd])
    D0 = m.crop(m.D0n).astype(m.dtype)
    S, W, lm = m.S.copy(), None if m.W is None else m.W.copy(), m.lmbda
    if m.kind == 'bpdn':
        x = abpdn.BPDN(D0, S, lm, ox)
        return x, acmod.CnstrMOD(np.zeros(m.shpX, dtype=m.dtype), S, m.shpD, od)
    if m.kind == 'wbpdn':
        x = pbpdn.WeightedBPDN(D0, S, lm, W, ox)
        return x, pcmod.WeightedCnstrMOD(np.zeros(m.shpX, dtype=m.dtype), S, W, m.shpD, od)
    kw = dict(dimK=m.dimK, dimN=m.n)
    De = D0.reshape(m.msz + ((m.Cd,) if m.D0.ndim == m.n + 2 else ()) + (m.M,))
    if m.kind in ('conv', 'par'):
        x = (acbpdn.ConvBPDN if m.xm == 'admm' else pcbpdn.ConvBPDN)(De, S, lm, ox, **kw)
        if m.dm == 'pgm':
            return x, pccmod.ConvCnstrMOD(None, S, m.spec, od, **kw)
        K = {'ism': accmod.ConvCnstrMOD_IterSM, 'cg': accmod.ConvCnstrMOD_CG, 'cns': accmod.ConvCnstrMOD_Consensus}[m.dm]
        return x, K(None, S, m.spec, od, **kw)
    x = (acbpdn.ConvBPDNMaskDcpl if m.xm == 'admm' else pcbpdn.ConvBPDNMask)(De, S, lm, W, ox, **kw)
    if m.dm == 'pgm':
        return x, pccmod.ConvCnstrMODMask(None, S, W, m.spec, od, **kw)
    K = {'ism': accmodmd.ConvCnstrMODMaskDcpl_IterSM, 'cg': accmodmd.ConvCnstrMODMaskDcpl_CG,
         'cns': accmodmd.ConvCnstrMODMaskDcpl_Consensus}[m.dm]
    return x, K(None, S, W, m.spec, od, **kw)


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('bpdn', 'wbpdn', 'conv', 'conv', 'mask', 'mask', 'par', 'parmask')),
                                  'o': dlm.OPTS, 'n': st.integers(1, 4)}), quick=1600, shards=8, budget=12)
def alternation(case, t):
    c, o = case['c'], case['o']
    m = dlm.Model(c)
    if m.par:
        if c['nproc'] and c['seed'] % 4:
            m.c['nproc'] = 0
        o = dict(o, auto='off')
    snaps = []
    b = m.make(o, {'MaxMainIter': case['n'], 'Callback': lambda x: snaps.append(snap(x, m))})
    x, d = parts(m, b)
    if m.par:
        x.opt['MaxMainIter'] = d.opt['MaxMainIter'] = 1
    b.solve()
    what = '%s(%s,%s)' % (m.kind, m.xm, m.dm)
    for k, s in enumerate(snaps):
        x.solve()
        X = np.array(x.getcoef(), copy=True)
        d.setcoef(x.getcoef())
        d.solve()
        D = np.array(d.getdict(), copy=True)
        x.setdict(d.getdict())
        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(D)) and np.all(np.isfinite(s['X']))):
            t.skip('diverged')
        tol = 1e-7
        if m.dm == 'cg' or o['auto'] == 'on':
            tol = 1e-5
        t.close(s['X'], X, tol, 1e-9, msg='%s: iteration %d: coefficients against the separate solvers' % (what, k))
        t.close(m.full(s['D']), m.full(D), tol, 1e-9, msg='%s: iteration %d: dictionary against the separate solvers' % (what, k))
    t.label(what)
    t.nontrivial(np.any(X) and np.abs(m.full(D) - m.D0n).max() > 1e-6)


# -- the generic learner composed from two solver objects -----------------------

class Composed(dictlrn.DictLearn):
    def evaluate(self):
        return {'Ev': 10.0 + self.j}


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('bpdn', 'wbpdn', 'conv', 'conv', 'mask', 'mask')), 'o': dlm.OPTS,
                                  'n': st.integers(1, 4), 'isc': st.sampled_from(['default', 'own', 'own']),
                                  'opt': st.sampled_from(['none', 'own', 'own']), 'fast': st.sampled_from([False, False, True]),
                                  'split': st.booleans()}), quick=700, shards=6, budget=8)
def composed(case, t):
    c, o, n = case['c'], case['o'], case['n']
    if case['isc'] == 'default' and c['kind'] in ('conv', 'mask') and c['seed'] % 4:
        c = dict(c, xm='admm', dm='cns' if c['seed'] % 2 else 'ism')
    m = dlm.Model(c)
    snaps = []
    b = m.make(o, {'MaxMainIter': n, 'Callback': lambda x: snaps.append(snap(x, m))})
    x, d = parts(m, b)
    fx = x.IterationStats._fields
    fd = d.IterationStats._fields
    dflt = case['isc'] == 'default' and all(f in fx and f in fd for f in ('PrimalRsdl', 'DualRsdl', 'Rho'))
    if case['fast'] and 'FastSolve' in d.opt and not (m.dm == 'pgm' and not m.dense):
        d.opt['FastSolve'] = True
    b.solve()
    what = 'composed %s(%s,%s)' % (m.kind, m.xm, m.dm)
    mine = []

    def cb(obj):
        mine.append((obj.j, np.array(obj.getcoef(), copy=True), np.array(obj.getdict(), copy=True)))
    isc = None
    if not dflt:
        isc = dictlrn.IterStatsConfig(
            isfld=['Iter', 'ObjX', 'ItX', 'DF', 'ItD', 'CnD', 'Ev', 'No', 'Time'], isxmap={'ObjX': 'ObjFun', 'ItX': 'Iter'},
            isdmap={'DF': 'DFid', 'ItD': 'Iter', 'CnD': 'Cnstr'}, evlmap={'Ev': 'Ev'},
            hdrtxt=['Itn', 'X', 'D'], hdrmap={'Itn': 'Iter', 'X': 'ObjX', 'D': 'DF'})
    n1 = max(1, n // 2) if case['split'] else n
    if case['opt'] == 'none':
        opt = None
    else:
        opt = dictlrn.DictLearn.Options({'MaxMainIter': n1, 'Callback': cb, 'IterTimer': 'solve_wo_eval'})
    K = dictlrn.DictLearn if dflt else Composed
    L = K(x, d, opt, isc)
    if case['opt'] == 'none':
        t.check(dict(L.opt) == dict(dictlrn.DictLearn.Options()), '%s: options %r when none are given', what, dict(L.opt))
        L.opt['MaxMainIter'], L.opt['Callback'] = n1, cb
    R = L.solve()
    if n1 < n:
        L.opt['MaxMainIter'] = n - n1
        R = L.solve()
    t.check([v[0] for v in mine] == list(range(n)) and L.j == n, '%s: iteration numbers %r, j=%d after %d iterations', what,
            [v[0] for v in mine], L.j, n)
    tol = 1e-5 if m.dm == 'cg' or o['auto'] == 'on' else 1e-7
    for k, (s, v) in enumerate(zip(snaps, mine)):
        if not (np.all(np.isfinite(s['X'])) and np.all(np.isfinite(s['D']))):
            t.skip('diverged')
        t.close(v[1], s['X'], tol, 1e-9, msg='%s: iteration %d: coefficients' % (what, k))
        t.close(m.full(v[2]), m.full(s['D'] if m.dense else s['Dc']), tol, 1e-9, msg='%s: iteration %d: dictionary' % (what, k))
    t.same(np.asarray(R), mine[-1][2], what + ': returned dictionary')
    it = L.getitstat()
    t.check(len(it.Iter) == n and list(it.Iter) == list(range(n)), '%s: Iter %r', what, list(it.Iter))
    nx, nd = x.opt['MaxMainIter'], d.opt['MaxMainIter']
    if len(x.itstat) == n * nx and len(d.itstat) in (0, n * nd):
        fast = len(d.itstat) == 0
        t.check(fast == bool(d.opt['FastSolve'] if 'FastSolve' in d.opt else False), '%s: %d statistics of the dictionary '
                'update', what, len(d.itstat))
        pairs = [('ObjX', x, 'ObjFun'), ('ItX', x, 'Iter'), ('DF', d, 'DFid'), ('ItD', d, 'Iter'), ('CnD', d, 'Cnstr')]
        if dflt:
            pairs = [('ObjFunX', x, 'ObjFun'), ('XPrRsdl', x, 'PrimalRsdl'), ('XDlRsdl', x, 'DualRsdl'), ('XRho', x, 'Rho'),
                     ('ObjFunD', d, 'DFid'), ('DPrRsdl', d, 'PrimalRsdl'), ('DDlRsdl', d, 'DualRsdl'), ('DRho', d, 'Rho')]
        for f, obj, g in pairs:
            q = nx if obj is x else nd
            want = [0.0] * n if obj is d and fast else [getattr(obj.itstat[k * q + q - 1], g) for k in range(n)]
            got = list(getattr(it, f))
            t.check(all(a == w or (a != a and w != w) for a, w in zip(got, want)) and len(got) == n,
                    '%s: field %s is %r, the steps report %r', what, f, got, want)
        t.label('stats')
        t.label('fast', fast)
    if not dflt:
        t.check(list(it.Ev) == [10.0 + k for k in range(n)] and all(v is None for v in it.No), '%s: evaluated fields %r %r',
                what, list(it.Ev), list(it.No))
    t.check(all(a <= b_ for a, b_ in zip(it.Time, it.Time[1:])), '%s: Time decreases', what)
    t.label(what)
    t.label('default isc', dflt)
    t.nontrivial(np.any(mine[-1][1]) and n > 1)


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('conv', 'mask')), 'o': dlm.OPTS, 'n': st.integers(1, 3),
                                  'who': st.sampled_from(['opt', 'arg', 'both', 'positional'])}), quick=300, shards=4, budget=5)
def methods(case, t):
    """Method names left out mean 'admm' and 'pgm'; names that contradict
    the option object are refused."""
    c = dict(case['c'], xm='admm', dm='pgm')
    m = dlm.Model(c)
    o = case['o']
    ex = {'MaxMainIter': case['n']}
    b = m.make(o, ex)
    b.solve()
    K = m.cls()
    a = (m.D0.copy(), m.S.copy(), m.lmbda) + (() if m.kind == 'conv' else (m.W.copy(),))
    kw = dict(dimK=m.dimK, dimN=m.n)
    named = K.Options(m.optdict(o, ex), xmethod='admm', dmethod='pgm')
    bare = K.Options(m.optdict(o, ex))
    t.check(bare.xmethod == 'admm' and bare.dmethod == 'pgm', 'default methods %r', (bare.xmethod, bare.dmethod))
    w = case['who']
    if w == 'opt':
        b2 = K(*(a + (bare,)), xmethod='admm', dmethod='pgm', **kw)
    elif w == 'arg':
        b2 = K(*(a + (named,)), **kw)
    elif w == 'both':
        b2 = K(*(a + (bare,)), **kw)
    else:
        b2 = K(*(a + (named, 'admm', 'pgm', m.dimK, m.n)))
    b2.solve()
    for g, h in ((b2.getdict(), b.getdict()), (b2.getcoef(), b.getcoef())):
        if not np.all(np.isfinite(h)):
            t.skip('diverged')
        t.same(np.asarray(g), np.asarray(h), '%s: default methods' % m.kind)
    for xm, dm in (('pgm', None), (None, 'cns'), ('admm', 'ism'), ('pgm', 'pgm')):
        try:
            K(*(a + (K.Options(m.optdict(o, ex)),)), xmethod=xm, dmethod=dm, **kw)
        except ValueError:
            continue
        t.check(False, '%s: methods (%s, %s) accepted with options for (admm, pgm)', m.kind, xm, dm)
    t.label(m.kind)
    t.nontrivial(np.any(np.asarray(b.getcoef())))


# -- every training signal contributes ------------------------------------------

@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('bpdn', 'wbpdn', 'conv', 'mask', 'par', 'parmask')),
                                  'o': dlm.OPTS, 'n': st.integers(1, 3), 'perm': seeds()}), quick=700, shards=4, budget=8)
def contribute(case, t):
    """Reordering the training signals reorders the coefficients and leaves
    the dictionary alone; changing one training signal changes what is
    learned unless nothing is coded."""
    c, o = dict(case['c'], nproc=0), dict(case['o'])
    if c['wl1'] == 'full':
        c['wl1'] = 'filt'
    if not c.get('K', 2):
        c['K'] = 2
    m = dlm.Model(c)
    K = m.shpS[1] if m.dense else m.K
    if K < 2:
        t.skip('one training signal')
    if o['bt'] != 'none' or o['auto'] == 'on':
        o['bt'], o['auto'] = 'none', 'off'
    b = m.make(o, {'MaxMainIter': case['n']})
    D = np.array(b.solve(), copy=True)
    X = np.array(b.getcoef(), copy=True)
    if not (np.all(np.isfinite(D)) and np.all(np.isfinite(X))):
        t.skip('diverged')
    what = '%s(%s,%s)' % (m.kind, m.xm, m.dm)
    rs = rng(case['perm'], 5)
    perm = rs.permutation(K)
    inp = m.inputs()
    kax = -1
    inp['S'] = np.ascontiguousarray(np.take(inp['S'], perm, axis=kax))
    if m.W is not None and m.W.shape == m.shpS:
        inp['W'] = np.ascontiguousarray(np.take(m.W, perm, axis=1 if m.dense else m.n + 1))
    b2 = m.make(o, {'MaxMainIter': case['n']}, inp)
    D2 = np.asarray(b2.solve())
    tol = 1e-5 if m.dm == 'cg' else 1e-7
    t.close(D2, D, tol, 1e-8, msg=what + ': dictionary after reordering the training signals')
    t.close(b2.getcoef(), np.take(X, perm, axis=1 if m.dense else m.n + 1), tol, 1e-8,
            msg=what + ': coefficients after reordering the training signals')
    # replace one training signal by another one
    j = int(rs.randint(K))
    sl = (slice(None), slice(j, j + 1)) if m.dense else (slice(None),) * (m.n + 1) + (slice(j, j + 1),)
    inp = m.inputs()
    S = inp['S'].copy()
    S[..., j] = S[..., j] + 3.0 * rs.randn(*S[..., j].shape)
    inp['S'] = S
    b3 = m.make(o, {'MaxMainIter': case['n']}, inp)
    D3 = np.asarray(b3.solve())
    X3 = b3.getcoef()
    # atoms with a support of one or two samples may have nowhere to move to
    fax = tuple(i for i in range(X3.ndim) if i != (0 if m.dense else X3.ndim - 1))
    used = (np.abs(X3[sl]).max(axis=fax) > 1e-3).all() and (np.asarray(m.W2)[sl] > 0.05).all()
    free = m.supp.reshape(-1, m.shpD[-1]).sum(axis=0).min() >= (5 if m.zm else 3)
    if used and free and np.all(np.isfinite(D3)):
        t.check(np.abs(D3 - D).max() > 1e-13, '%s: a coded training signal (index %d of %d) changed, the dictionary did not', what, j, K)
        t.label('changed')
    t.label(what)
    t.nontrivial(np.any(X) and np.any(perm != np.arange(K)))


# -- online learning ----------------------------------------------------------------

@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=dlm.ONLINE, dimNs=(1, 1, 2, 2, 3)), 'o': dlm.OPTS,
                                  'hist': st.lists(st.fixed_dictionaries({'seed': seeds(), 'K': st.integers(1, 3), 'dN': st.integers(0, 2),
                                                                          'W': st.booleans(), 'same': st.booleans()}),
                                                   min_size=1, max_size=4),
                                  'f32': st.sampled_from([False, False, False, True])}), quick=900, shards=4, budget=12)
def online(case, t):
    c, o = case['c'], case['o']
    m = dlm.Model(c, 'float32' if case['f32'] else 'float64')
    b = m.make(o)
    n = m.n
    D = m.crop(m.D0n)
    t.close(np.asarray(b.getdict()).reshape(D.shape), D, 1e-5 if case['f32'] else 1e-10, 1e-6 if case['f32'] else 1e-12,
            msg='initial dictionary is the projected D0')
    moved = False
    returned = []
    tol = 5e-3 if case['f32'] else 1e-7
    for k, h in enumerate(case['hist']):
        # a training signal, possibly of another size than the previous one
        lay = dict(c)
        if not h['same']:
            lay['K'] = h['K'] if m.sK else 0
            lay['Nv'] = [x + h['dN'] for x in c['Nv']]
        lay['seed'] = h['seed']
        q = dlm.Model(lay, 'float32' if case['f32'] else 'float64')
        S = q.S.copy()
        W = q.W if h['W'] else None
        # the regularisation of the sparse coding step is a fixed number
        Din = np.asarray(b.getdict(), dtype=float).reshape(D.shape)
        if m.kind == 'onlinemask':
            R = b.solve(S, W) if W is not None else b.solve(S)
        else:
            R = b.solve(S)
        returned.append((R, R.copy()))
        Z = np.asarray(b.Z, dtype=float).reshape(q.shpX)
        if not np.all(np.isfinite(Z)):
            t.skip('diverged')
        # coefficients are those of the separate sparse coding solver at the current dictionary
        De = Din.astype(m.dtype).reshape(m.msz + ((m.Cd,) if m.D0.ndim == n + 2 else ()) + (m.M,))
        ox = copy.deepcopy(b.opt['CBPDN'])
        kw = dict(dimK=m.dimK, dimN=n)
        if m.kind == 'onlinemask':
            x = acbpdn.ConvBPDNMaskDcpl(De, S, m.lmbda, np.ones(1, dtype=m.dtype) if W is None else W, ox, **kw)
        else:
            x = acbpdn.ConvBPDN(De, S, m.lmbda, ox, **kw)
        x.solve()
        t.close(Z, np.asarray(x.getcoef(), dtype=float), tol, 1e-6 if case['f32'] else 1e-9,
                msg='%s: step %d: coefficients against the separate solver' % (m.kind, k))
        # gradient step on the data term, projected
        W2 = q.Wi**2 if (m.kind == 'onlinemask' and W is not None) else np.ones(q.shpS)
        eta = o['eta'][0] / (k + o['eta'][1])
        Df = np.zeros(q.shpD)
        Df[tuple(slice(0, s) for s in Din.shape[:n])] = Din
        G = Df - eta * q.gradD(Df, Z, W2=W2)
        want = q.crop(q.proj(G))
        got = np.asarray(R, dtype=float).reshape(D.shape)
        near = np.sqrt(np.sum(np.where(q.supp, G, 0)**2, axis=tuple(range(n + 1)))).min() < 1e-3
        single = q.supp.reshape(-1, q.M).sum(axis=0).min() <= 2 * q.Cd and m.zm
        if not near and not single:
            t.close(got, want, 5e-3 if case['f32'] else 1e-7, 1e-4 if case['f32'] else 1e-9,
                    msg='%s: step %d: dictionary after the projected gradient step' % (m.kind, k))
        w = q.infeasible(got)
        t.check(not w, '%s: step %d: %s', m.kind, k, w)
        t.check(R.dtype == m.dtype, 'dictionary dtype %s for %s', R.dtype, m.dtype)
        t.same(np.asarray(b.getdict(), dtype=float).reshape(D.shape), got, 'getdict() is the returned dictionary')
        it = b.getitstat()
        t.eq(list(it.Iter), list(range(k + 1)), 'iteration indices')
        t.close(it.Eta[k], eta, 1e-6, msg='Eta')
        t.close(it.DeltaD[k], np.linalg.norm(got - Din), 1e-3 if case['f32'] else 1e-7, 1e-4 if case['f32'] else 1e-9, msg='DeltaD')
        if not near and not single:
            full = np.zeros(q.shpD)
            full[tuple(slice(0, s) for s in got.shape[:n])] = got
            t.close(it.Cnstr[k], np.linalg.norm(full - G), 1e-3 if case['f32'] else 1e-6, 1e-3 if case['f32'] else 1e-8, msg='Cnstr')
        xi = x.itstat[-1]
        for f in ('ObjFun', 'DFid', 'RegL1'):
            t.close(getattr(it, f)[k], getattr(xi, f), 1e-3 if case['f32'] else 1e-7, 1e-5, msg='statistic ' + f)
        moved = moved or (np.abs(got - Din).max() > 1e-6 and np.any(Z))
    for i, (r, c0) in enumerate(returned):
        t.same(r, c0, 'dictionary returned by step %d after later steps' % i)
    t.label(m.kind)
    t.label('varying', any(not h['same'] for h in case['hist']) and len(case['hist']) > 1)
    t.nontrivial(moved)
