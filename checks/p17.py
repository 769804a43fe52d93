"""P17: masked-out samples have no influence and unit masks are neutral."""
import numpy as np
from vlib.core import Check, st, rng
from vlib import solvers as sv
from vlib import dupd, densem, dlm
from vlib.statm import grab
from checks import p13, p16
from checks.p15 import same_history, isloose, name
from sporco.admm import cbpdn

CHECK = Check('P17', rule='the mask has zero entries and the iterates changed (neutrality: the iterates changed and the mask '
              'argument is really used; layouts: the mask is not constant)',
              assumptions=['the auxiliary variable of the mask decoupling methods is a copy of the signal at masked samples, so '
                           'a run whose start is translated by the same change of the masked samples must reproduce every iterate '
                           'exactly; from the default start only the converged solution is compared',
                           'penalty adaptation and stopping tolerances off where runs with different masked samples are compared '
                           'per iteration (the residual normalisation of mask decoupling includes the signal)',
                           'dictionary learning is not convex: only translated-start and per-iteration relations are used'])

RUN = st.fixed_dictionaries({'n': st.integers(2, 5), 'rho': st.sampled_from([0.3, 1.0, 4.0]), 'relax': st.sampled_from([1.0, 1.5, 1.8]),
                             'aux': st.booleans(), 'mag': st.sampled_from([1.0, 1.0, 30.0])})
MASKED_S = ['ConvBPDNMaskDcpl', 'ConvBPDNMaskDcpl', 'ConvL1L1Grd', 'AddMaskSim', 'AddMaskSim', 'ConvProdDictL1L1Grd', 'pgm.ConvBPDNMask']


def admm_opts(o, scale):
    return {'MaxMainIter': o['n'], 'RelStopTol': 0.0, 'RelaxParam': o['relax'], 'rho': float(o['rho'] * scale),
            'AutoRho': {'Enabled': False}}


def history(b, s, n=None):
    caps = []
    s.opt['Callback'] = lambda x: caps.append(grab(x)) and None
    if n is not None:
        s.opt['MaxMainIter'] = n
    b.solve()
    return caps


def only(caps, keys):
    return [{k: c[k] for k in keys if k in c} for c in caps]


def okay(t, caps):
    if not all(np.all(np.isfinite(c['X'])) and np.abs(c['X']).max(initial=0) < 1e8 for c in caps):
        t.skip('diverged')


def moved(caps):
    return len(caps) > 1 and not np.array_equal(caps[0]['X'], caps[-1]['X'])


# Backtracking, monotone steps and step size policies take decisions (or divide
# by differences) that may be tied to rounding; see P12 for these
PPLAIN = p13.PRUN.map(lambda p: dict(p, bt='none', mono=False, step='none'))


def change(m, Wi, shp, mag, seed):
    """A second signal that differs exactly where the mask is zero."""
    d = np.where(np.broadcast_to(Wi, shp) == 0, mag * (0.5 + rng(seed, 71).rand(*shp)), 0.0)
    return np.asarray(m.Si if hasattr(m, 'Si') else m.p.Si, dtype=float) + d, d


# -- masked samples have no influence -------------------------------------------------

def translate(m, b, a):
    """Translate the start of solver b by the difference of the signals."""
    s, r = getattr(b, 'cbpdn', b), getattr(a, 'cbpdn', a)
    d = s.S - r.S
    if m.kind == 'AddMaskSim':
        n = m.n
        e = d if m.p.Cd == 1 else np.swapaxes(d, n, n + 2)
        s.Y[..., -m.p.Cd:] += np.broadcast_to(e, s.Y[..., -m.p.Cd:].shape)
    elif hasattr(s, 'block_sep0'):
        v = s.block_sep0(s.Y)
        if not np.shares_memory(v, s.Y):
            raise TypeError('block_sep0 copies')
        v -= d
    return d


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(MASKED_S, maxN=(8, 5, 3)), 'o': RUN, 'p': PPLAIN, 'mk': st.sampled_from(['bin', 'bin', 'wgt', 'spatial'])}),
           quick=1600, shards=8, budget=8)
def influence(case, t):
    o = case['o']
    m = sv.Model(dict(case['c'], mask=case['mk']))
    pg = m.kind.startswith('pgm')
    if pg:
        d = lambda: p13.pgm_common(dict(case['p'], tol=0.0), m.lipA * max(m.Wi.max()**2, 1e-3))
    else:
        d = lambda: admm_opts(o, m.rho0())
    S2, dS = change(m, m.Wi, m.p.shpS, o['mag'], case['c']['seed'])
    a = m.make(d())
    b = m.make(d(), S=S2.reshape(m.p.S.shape))
    if not pg:
        translate(m, b, a)
    sa, sb = getattr(a, 'cbpdn', a), getattr(b, 'cbpdn', b)
    ha, hb = history(a, sa, o['n']), history(b, sb, o['n'])
    okay(t, ha)
    what = name(m)
    tol = 1e-8 * (o['mag'] + 1)
    if m.kind == 'AddMaskSim':
        Cd = m.p.Cd
        cut = lambda h: [{k: c[k][..., :-Cd] for k in ('X', 'Y', 'U')} for c in h]
        ha2, hb2 = cut(ha), cut(hb)
    elif pg or not hasattr(sa, 'block_sep0'):
        ha2, hb2 = only(ha, ('X', 'Y', 'U')), only(hb, ('X', 'Y', 'U'))
    else:
        ha2, hb2 = only(ha, ('X', 'var_y1', 'U')), only(hb, ('X', 'var_y1', 'U'))
    same_history(t, hb2, ha2, what + ': signal changed at masked samples', tol)
    p16.stats_close(t, b.getitstat(), a.getitstat(), what + ': signal changed at masked samples', tol * 10,
                    ('ObjFun', 'DFid', 'RegL1', 'RegGrad', 'RegL21', 'RegL2', 'Cnstr'))
    t.close(b.getcoef(), a.getcoef(), tol, tol, msg=what + ': getcoef()')
    t.label(what)
    t.nontrivial(np.any(dS != 0) and moved(ha))


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ConvBPDNMaskDcpl', 'ConvL1L1Grd', 'AddMaskSim', 'ConvProdDictL1L1Grd', 'pgm.ConvBPDNMask',
                                                'ParConvBPDN'], maxN=(6, 4, 3), dimNs=(1, 1, 2), maxK=2, maxM=2),
                                  'mk': st.sampled_from(['bin', 'bin', 'spatial']), 'mag': st.sampled_from([1.0, 5.0])}),
           quick=120, shards=8, budget=9)
def converged(case, t):
    """The solution from the default start."""
    if case['c']['kind'] == 'ParConvBPDN' and case['c']['seed'] % 3:
        t.skip('sampled')
    m = sv.Model(dict(case['c'], mask=case['mk'], lam=max(case['c']['lam'], 0.05)))
    S2, dS = change(m, m.Wi, m.p.shpS, case['mag'], case['c']['seed'])
    pg = m.kind.startswith('pgm')
    par = m.kind == 'ParConvBPDN'
    tol = 1e-5
    if pg:
        d = {'MaxMainIter': 3000, 'RelStopTol': 1e-7, 'L': float(1.02 * m.lipA)}
    else:
        d = {'MaxMainIter': 150 if par else 2500, 'RelStopTol': tol, 'RelaxParam': 1.6}
        d['rho'] = 1.0 if par else m.rho0()
        d['AutoRho'] = {'Enabled': False}
    out = []
    kw = dict(nproc=1, par=1) if par else {}
    for S in (m.p.S.copy(), S2.reshape(m.p.S.shape).copy()):
        b = m.make(d, S=S, **kw)
        b.solve()
        its = b.getitstat()
        if len(its.Iter) >= d['MaxMainIter'] and not par:
            t.skip('not converged')
        X = np.asarray(b.getcoef())
        out.append((m.objective(X), float(its.ObjFun[-1]), X))
    sc = max(m.fzero(), out[0][0], 1e-2 * float(np.sum(m.p.S64**2)), 1e-5 * float(np.sum(S2**2)), 1e-9)
    lim = 2e-2 if par else 2e-3
    what = name(m)
    if par and abs(out[0][0] - out[0][1]) > 1e-3 * sc:
        t.skip('not converged')
    t.check(abs(out[1][0] - out[0][0]) <= lim * sc, '%s: objective of the solution %.8g, after changing masked samples %.8g', what, out[0][0], out[1][0])
    t.check(abs(out[1][1] - out[0][1]) <= lim * sc, '%s: reported objective %.8g, after changing masked samples %.8g', what, out[0][1], out[1][1])
    t.label(what)
    t.nontrivial(np.any(dS != 0) and np.any(out[0][2]))


def dtranslate(m, b, a):
    d = b.S - a.S
    if m.kind == 'md.cns':
        b.Y1 -= d
    elif m.kind.startswith('md.'):
        v = b.block_sep0(b.Y)
        if not np.shares_memory(v, b.Y):
            raise TypeError('block_sep0 copies')
        v -= d


@CHECK.sub(st.fixed_dictionaries({'c': dupd.case(kinds=('md.ism', 'md.cg', 'md.cns', 'pgm.md', 'pgm.wcmod')), 'o': RUN, 'p': PPLAIN,
                                  'mk': st.sampled_from(['bin', 'bin', 'wgt', 'spatial'])}), quick=1000, shards=8, budget=8)
def dinfluence(case, t):
    o = case['o']
    m = dupd.Model(dict(case['c'], mask=case['mk']))
    if m.pgm:
        d = lambda: dict(p13.pgm_common(dict(case['p'], tol=0.0), m.lip()), **m.init())
    else:
        d = lambda: dict(admm_opts(o, 1.0), AuxVarObj=o['aux'], **dict(m.init(), **({'CG': {'MaxIter': 1000, 'StopTol': 1e-12}} if m.kind == 'md.cg' else {})))
    S2, dS = change(m, m.Wi, m.shpS, o['mag'], case['c']['seed'])
    a, b = m.make(d()), m.make(d(), S=S2.reshape(m.S.shape))
    if not m.pgm:
        dtranslate(m, b, a)
    ha, hb = history(a, a, o['n']), history(b, b, o['n'])
    okay(t, ha)
    what = 'dictionary update ' + m.kind
    if any(p13.projection_jump(m, c) for c in ha):
        t.skip('near-zero atom')
    tol = 1e-7 * (o['mag'] + 1) * (1e2 if m.kind == 'md.cg' else 1)
    keys = ('X', 'Y') if m.pgm or m.kind == 'md.cns' else ('X', 'var_y1')
    same_history(t, only(hb, keys), only(ha, keys), what + ': signal changed at masked samples', tol)
    p16.stats_close(t, b.getitstat(), a.getitstat(), what + ': signal changed at masked samples', tol * 10, ('ObjFun', 'DFid'))
    t.close(b.getdict(), a.getdict(), tol, tol, msg=what + ': getdict()')
    t.label(what)
    t.nontrivial(np.any(dS != 0) and moved(ha))


def learner_steps(case, m, S2, o):
    a, b = m.make(o, {'MaxMainIter': 1}), None
    Si, S = m.Si, m.S
    m.Si, m.S = S2.astype(m.dtype), S2.reshape(m.S.shape).astype(m.dtype)
    b = m.make(o, {'MaxMainIter': 1})
    m.Si, m.S = Si, S
    return a, b


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('mask', 'mask', 'mask', 'wbpdn', 'parmask')), 'o': dlm.OPTS, 'n': st.integers(1, 3),
                                  'mag': st.sampled_from([1.0, 30.0]), 'mk': st.sampled_from(['bin', 'bin', 'wgt', 'spatial'])}),
           quick=400, shards=8, budget=9)
def linfluence(case, t):
    # A monotone step or a backtracking test that is tied to rounding may
    # be decided either way
    c, o = case['c'], dict(case['o'], auto='off', bt='none', mono=False)
    mk = case['mk'] if c['kind'] != 'wbpdn' or case['mk'] != 'spatial' else 'bin'
    m = dlm.Model(dict(c, mask=mk, nproc=0))
    S2, dS = change(m, m.Wi, m.shpS, case['mag'], c['seed'])
    a, b = learner_steps(case, m, S2, o)
    if m.par:
        if not hasattr(a, 'mpvar'):
            t.skip('state not accessible')
        d = b.mpvar['mp_S'] - a.mpvar['mp_S']
        b.mpvar['mp_Z_Y0'] -= d.reshape(b.mpvar['mp_Z_Y0'].shape)
        b.mpvar['mp_D_Y1'] -= d.reshape(b.mpvar['mp_D_Y1'].shape)
    elif m.xm == 'admm':
        v = b.xstep.block_sep0(b.xstep.Y)
        v -= b.xstep.S - a.xstep.S
    if m.par:
        pass
    elif m.dm == 'cns':
        b.dstep.Y1 -= b.dstep.S - a.dstep.S
    elif m.dm != 'pgm':
        v = b.dstep.block_sep0(b.dstep.Y)
        v -= b.dstep.S - a.dstep.S
    what = '%s(%s,%s): signal changed at masked samples' % (m.kind, m.xm, m.dm)
    tol = (1e-5 if m.dm == 'cg' else 1e-8) * (case['mag'] + 1)
    D1 = None
    for k in range(case['n']):
        D, E = a.solve(), b.solve()
        if not np.all(np.isfinite(D)):
            t.skip('diverged')
        X = a.getcoef()
        p16.unused(t, X.T if m.dense else X)
        t.close(E, D, tol, tol, msg='%s: iteration %d: dictionary' % (what, k))
        t.close(b.getcoef(), X, tol, tol * max(1.0, np.abs(X).max()), msg='%s: iteration %d: coefficients' % (what, k))
        D1 = np.array(D, copy=True) if D1 is None else D1
    p16.stats_close(t, b.getitstat(), a.getitstat(), what, tol * 10, ('ObjFun', 'DFid', 'RegL1'))
    t.label(what)
    t.nontrivial(np.any(dS != 0) and np.any(X))


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('onlinemask',)), 'o': dlm.OPTS, 'mag': st.sampled_from([1.0, 30.0]),
                                  'mk': st.sampled_from(['bin', 'bin', 'wgt', 'spatial'])}), quick=120, shards=4, budget=5)
def oinfluence(case, t):
    """Online learning: one step, inner coding from a translated start."""
    c, o = case['c'], dict(case['o'], auto='off')
    m = dlm.Model(dict(c, mask=case['mk']))
    S2, dS = change(m, m.Wi, m.shpS, case['mag'], c['seed'])
    q = cbpdn.ConvBPDNMaskDcpl(m.D0, m.S, m.lmbda, m.W, cbpdn.ConvBPDNMaskDcpl.Options({'Verbose': False}), dimK=m.dimK, dimN=m.n)
    xo, hs = m.xopts, []
    for d in (0, dS):
        Y0 = np.zeros(q.Y.shape)
        v = q.block_sep0(Y0)
        v -= d
        m.xopts = lambda p, Y0=Y0: dict(xo(p), Y0=Y0.astype(m.dtype), MaxMainIter=8, RelStopTol=0.0)
        b = m.make(o, {})
        D = m.feed(b, m.S if np.ndim(d) == 0 else S2.reshape(m.S.shape), m.W)
        hs.append((np.array(D, copy=True), np.array(b.Z, copy=True), b.getitstat()))
    if not np.all(np.isfinite(hs[0][0])):
        t.skip('diverged')
    tol = 1e-7 * (case['mag'] + 1)
    what = 'onlinemask: signal changed at masked samples'
    t.close(hs[1][1], hs[0][1], tol, tol, msg=what + ': coefficients')
    t.close(hs[1][0], hs[0][0], tol, tol, msg=what + ': dictionary')
    p16.stats_close(t, hs[1][2], hs[0][2], what, 10 * tol, ('ObjFun', 'DFid', 'RegL1'))
    t.nontrivial(np.any(dS) and np.any(hs[0][1]))


# -- unit and uniform masks are neutral ------------------------------------------------

@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['pgm.ConvBPDNMask', 'ConvL1L1Grd', 'ConvProdDictL1L1Grd', 'ConvBPDNMaskDcpl'], maxN=(8, 5, 3)), 'o': RUN, 'p': PPLAIN,
                                  'w': st.sampled_from([1.0, 1.0, 0.5, 2.0]), 'lay': st.sampled_from(['none', 'spatial', 'full'])}),
           quick=700, shards=8, budget=6)
def unit(case, t):
    """Proximal gradient: the iterates of the unmasked problem (uniform
    weight w: the problem scaled by w^2).  Mask decoupling: no mask argument,
    a mask of ones and any uniform weight are equivalent problems."""
    o, p, w = case['o'], dict(case['p'], tol=0.0), case['w']
    c = dict(case['c'], mask='none')
    m = sv.Model(c)
    W = {'none': None, 'spatial': w * np.ones(m.p.Nv), 'full': w * np.ones(m.p.shpS)}[case['lay']]
    if W is None:
        w = 1.0
    if m.kind == 'pgm.ConvBPDNMask':
        r = sv.Model(dict(c, kind='pgm.ConvBPDN'))
        d = lambda: p13.pgm_common(p, m.lipA)
        b = r.make(d())
        m.W, m.lmbda = W, r.lmbda * w**2
        e = d()
        e['L'] *= w**2
        a = m.make(e)
        if W is None:
            t.label('no mask argument')
        ha, hb = history(a, a, o['n']), history(b, b, o['n'])
        okay(t, hb)
        loose = p['bt'] != 'none' or p['mono'] or p['step'] != 'none'
        same_history(t, only(ha, 'XY'), only(hb, 'XY'), 'pgm.ConvBPDNMask with uniform mask %s %g' % (case['lay'], w), 1e-5 if loose else 1e-8)
        if w == 1.0:
            p16.stats_close(t, a.getitstat(), b.getitstat(), 'pgm.ConvBPDNMask', 1e-6, ('ObjFun', 'DFid', 'RegL1', 'L'), n=p16.exact(b.getitstat()))
    else:
        d = admm_opts(o, m.rho0())
        b = m.make(d)                              # no mask argument
        # l1 fidelity scales with w, l2 fidelity with w^2
        q = w if m.kind in sv.L1FID else w**2
        m.W = W if W is not None else np.ones(m.p.Nv)
        if m.kind in sv.L1FID:
            m.lmbda, m.mu = m.lmbda * q, m.mu * q
        else:
            m.lmbda = m.lmbda * q
        a = m.make(dict(d, rho=float(d['rho'] * q)))
        ha, hb = history(a, a, o['n']), history(b, b, o['n'])
        okay(t, hb)
        same_history(t, only(ha, 'XYU'), only(hb, 'XYU'), '%s with uniform mask %s %g' % (m.kind, case['lay'], w), 1e-8)
        for f in ('ObjFun', 'DFid'):
            x, y = np.array(getattr(a.getitstat(), f), dtype=float), np.array(getattr(b.getitstat(), f), dtype=float)
            t.close(x, q * y, 1e-7, 1e-9, msg='%s with uniform mask: %s' % (m.kind, f))
    t.label('%s %s' % (m.kind, case['lay']))
    t.nontrivial(moved(hb))


@CHECK.sub(st.fixed_dictionaries({'c': dupd.case(kinds=('md.ism', 'md.cg', 'md.cns', 'pgm.md', 'pgm.wcmod')), 'o': RUN, 'p': PPLAIN,
                                  'w': st.sampled_from([1.0, 1.0, 0.5, 2.0]), 'lay': st.sampled_from(['none', 'spatial', 'full'])}), quick=700, shards=8, budget=6)
def dunit(case, t):
    o, p, w = case['o'], dict(case['p'], tol=0.0), case['w']
    c = dict(case['c'], mask='ones')
    if c['kind'] == 'md.cns' and w != 1.0:
        c['init'] = 'none'                 # an initial dictionary also sets the dual variable, from the penalty
    m = dupd.Model(c)
    m.W = {'none': None, 'spatial': w * np.ones(m.shpS if m.dense else m.Nv), 'full': w * np.ones(m.shpS)}[case['lay']]
    if m.W is None:
        w = 1.0
    if m.W is None and m.kind not in ('md.cns', 'pgm.wcmod'):
        m.W = np.ones((1,) * (m.n + 2))
    q = w if m.kind == 'pgm.wcmod' else w**2
    if m.pgm:
        r = dupd.Model(dict(case['c'], kind='pgm.cmod' if m.dense else 'pgm'))
        d = lambda: dict(p13.pgm_common(p, r.lip()), **r.init())
        r.Z, r.S, r.D0, r.Draw = m.Z, m.S, m.D0, m.Draw
        e = d()
        e['L'] *= q
    else:
        r = dupd.Model(c)
        r.W = np.ones((1,) * m.n)
        d = lambda: dict(admm_opts(o, 1.0), AuxVarObj=o['aux'], **r.init())
        e = d()
        e['rho'] *= q
        if m.kind == 'md.cg':
            e['CG'] = {'MaxIter': 1000, 'StopTol': 1e-12}
    b, a = r.make(dict(d(), **({'CG': e['CG']} if 'CG' in e else {}))), m.make(e)
    ha, hb = history(a, a, o['n']), history(b, b, o['n'])
    okay(t, hb)
    if any(p13.projection_jump(m, x) for x in hb):
        t.skip('near-zero atom')
    loose = m.pgm and (p['bt'] != 'none' or p['mono'] or p['step'] != 'none')
    what = 'dictionary update %s with uniform mask %s %g' % (m.kind, case['lay'], w)
    same_history(t, only(ha, 'XY'), only(hb, 'XY'), what, 1e-5 if loose else 1e-6 if m.kind == 'md.cg' else 1e-8)
    t.label(what)
    t.nontrivial(moved(hb))


@CHECK.sub(st.fixed_dictionaries({'c': densem.case(('pgm.WeightedBPDN',)), 'p': PPLAIN, 'w': st.sampled_from([1.0, 1.0, 0.5, 2.0]),
                                  'lay': st.sampled_from(['none', 'vec', 'full', 'row', 'inf']), 'mag': st.sampled_from([1.0, 30.0])}), quick=500, shards=4, budget=5)
def dense(case, t):
    c, p, w = case['c'], dict(case['p'], tol=0.0), case['w']
    m = densem.Model(dict(c, W='zeros' if case['lay'] == 'inf' else 'none'))
    n = 4
    loose = p['bt'] != 'none' or p['mono'] or p['step'] != 'none'
    if case['lay'] == 'inf':
        d = np.where(m.Wf == 0, case['mag'] * (0.5 + rng(c['seed'], 71).rand(*m.Wf.shape)), 0)
        mk = lambda: p13.pgm_common(p, m.lip)
        a = m.make(mk())
        i = m.inputs()
        i['S'] = m.S + d
        b = m.make(mk(), i)
        what = 'WeightedBPDN: signal changed at zero-weight samples'
        nt = np.any(d)
    else:
        r, k = m.S.shape
        W = {'none': None, 'vec': np.full(r, w), 'full': np.full((r, k), w), 'row': np.full((r, 1), w)}[case['lay']]
        w = 1.0 if W is None else w
        q = densem.Model(dict(c, kind='pgm.BPDN'))
        mk = lambda: p13.pgm_common(p, q.lip)
        b = q.make(mk())
        m.W, m.lmbda = W, q.lmbda * w
        e = mk()
        e['L'] *= w
        a = m.make(e)
        what = 'WeightedBPDN with uniform weights %s %g against BPDN' % (case['lay'], w)
        nt = True
    ha, hb = history(a, a, n), history(b, b, n)
    okay(t, hb)
    same_history(t, only(ha, 'XY'), only(hb, 'XY'), what, 1e-5 if loose else 1e-8 * (1 + case['mag']))
    t.label(case['lay'])
    t.nontrivial(nt and moved(hb))


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('mask', 'mask', 'onlinemask', 'parmask')), 'o': dlm.OPTS, 'n': st.integers(1, 3),
                                  'lay': st.sampled_from(['spatial', 'full'])}), quick=300, shards=8, budget=6)
def lunit(case, t):
    """Mask of ones: batch learning with proximal gradient steps is the
    unmasked learner; mask decoupling: the mask argument left out."""
    c, o = dict(case['c'], mask='ones', nproc=0), dict(case['o'])
    if c['kind'] == 'mask' and c['seed'] % 2:
        c.update(xm='pgm', dm='pgm')
    m = dlm.Model(c)
    W = np.ones(m.Nv) if case['lay'] == 'spatial' else np.ones(m.shpS)
    m.W = W
    loose = o['bt'] != 'none' or o['mono'] or m.dm == 'cg' or o['auto'] != 'off'
    what = '%s(%s,%s) with a mask of ones (%s)' % (m.kind, m.xm, m.dm, case['lay'])
    if m.kind == 'onlinemask':
        a, b = m.make(o, {}), m.make(o, {})
        W1, W2 = W, None
    elif m.kind == 'mask' and (m.xm, m.dm) == ('pgm', 'pgm'):
        r = dlm.Model(dict(c, kind='conv'))
        r.S, r.Si, r.D0, r.lmbda, r.w = m.S, m.Si, m.D0, m.lmbda, m.w
        a, b = m.make(o, {'MaxMainIter': 1}), r.make(o, {'MaxMainIter': 1})
        what += ' against the unmasked learner'
    else:
        a = m.make(o, {'MaxMainIter': 1})
        m.W = np.array([1.0]) if m.kind == 'parmask' else np.ones((1,) * m.n)
        b = m.make(o, {'MaxMainIter': 1})
    D1 = None
    tol = 1e-4 if loose else 1e-7
    for k in range(case['n']):
        if m.online:
            S = dlm.Model(dict(c, seed=c['seed'] + 2 * k)).S
            D, E = m.feed(a, S, W1), m.feed(b, S, W2)
        else:
            D, E = a.solve(), b.solve()
            p16.unused(t, b.getcoef())
        if not np.all(np.isfinite(E)):
            t.skip('diverged')
        t.close(np.asarray(D).reshape(np.asarray(E).shape), E, tol, tol * 0.1, msg='%s: step %d' % (what, k))
        D1 = np.array(D, copy=True) if D1 is None else D1
    t.label(what)
    t.nontrivial(not np.array_equal(np.asarray(D).ravel(), np.asarray(m.crop(m.D0n)).ravel()))


# -- layouts of one mask ------------------------------------------------------------------

def mask_forms(n, Nv, C, K, pat, rs, binary):
    """An internal compact mask and equivalent arrays: (full, forms)."""
    sp = tuple(Nv)
    shp = {'spatial': sp + (1, 1), 'chan': sp + (C, 1), 'sig': sp + (1, K), 'full': sp + (C, K), 'chanonly': (1,) * n + (C, 1),
           'sigonly': (1,) * n + (1, K)}[pat]
    w = (rs.rand(*shp) < 0.7) * 1.0
    if not binary:
        w = w * (0.3 + rs.rand(*shp))
    full = np.broadcast_to(w, sp + (C, K))
    forms = [w, w[..., None], full[..., None], full]
    if pat == 'spatial':
        forms += [w.reshape(sp)] * 3
    if K == 1 and C > 1:
        forms += [w[..., 0]]
    if C == 1 and K > 1:
        forms += [w[..., 0, :]]
    if C > 1 and K > 1 and pat in ('chan', 'spatial', 'chanonly'):
        forms += [w[..., 0]] * 2
    return full[..., None].copy(), forms


PAT = st.sampled_from(['spatial', 'spatial', 'chan', 'sig', 'full', 'chanonly', 'sigonly'])


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(MASKED_S + ['ParConvBPDN'], maxN=(8, 5, 3)), 'o': RUN, 'p': PPLAIN, 'pat': PAT, 'f': st.integers(0, 20),
                                  'bin': st.booleans()}), quick=1200, shards=8, budget=8)
def layout(case, t):
    o, p = case['o'], dict(case['p'], tol=0.0)
    m = sv.Model(dict(case['c'], mask='none'))
    rs = rng(case['c']['seed'], 73)
    par = m.kind == 'ParConvBPDN'
    if par and case['c']['seed'] % 8:
        t.skip('sampled')
    full, forms = mask_forms(m.n, m.p.Nv, m.p.C, m.p.K, case['pat'], rs, case['bin'] or m.kind == 'AddMaskSim')
    W = forms[case['f'] % len(forms)]
    if m.kind.startswith('pgm'):
        d = lambda: p13.pgm_common(p, m.lipA)
    else:
        d = lambda: admm_opts(o, 1.0 if par else m.rho0())
    kw = dict(nproc=1, par=1) if par else {}
    m.W = full
    a = m.make(d(), **kw)
    m.W = W.copy()
    b = m.make(d(), **kw)
    what = '%s: mask of shape %s given as %s' % (name(m), full.shape, W.shape)
    if par:
        X, Y = a.solve(), b.solve()
        t.close(Y, X, 1e-9, 1e-11, msg=what)
        ha = [{'X': np.zeros(1)}, {'X': np.ones(1)}]
    else:
        ha, hb = history(a, getattr(a, 'cbpdn', a), o['n']), history(b, getattr(b, 'cbpdn', b), o['n'])
        okay(t, ha)
        same_history(t, hb, ha, what, 1e-9)
    p16.stats_close(t, b.getitstat(), a.getitstat(), what, 1e-7)
    t.label('%s %s' % (m.kind, case['pat']))
    t.nontrivial(full.min() != full.max() and moved(ha))


@CHECK.sub(st.fixed_dictionaries({'c': dupd.case(kinds=('md.ism', 'md.cg', 'md.cns', 'pgm.md')), 'o': RUN, 'p': PPLAIN, 'pat': PAT, 'f': st.integers(0, 20),
                                  'bin': st.booleans()}), quick=800, shards=8, budget=8)
def dlayout(case, t):
    o, p = case['o'], dict(case['p'], tol=0.0)
    m = dupd.Model(dict(case['c'], mask='ones'))
    full, forms = mask_forms(m.n, m.Nv, m.C, m.K, case['pat'], rng(case['c']['seed'], 73), case['bin'])
    W = forms[case['f'] % len(forms)]
    d = lambda: dict(p13.pgm_common(p, m.lip()) if m.pgm else dict(admm_opts(o, 1.0), AuxVarObj=o['aux']), **m.init())
    m.W = full
    a = m.make(d())
    m.W = W.copy()
    b = m.make(d())
    ha, hb = history(a, a, o['n']), history(b, b, o['n'])
    okay(t, ha)
    what = 'dictionary update %s: mask of shape %s given as %s' % (m.kind, full.shape, W.shape)
    same_history(t, only(hb, 'XY'), only(ha, 'XY'), what, 1e-9)
    p16.stats_close(t, b.getitstat(), a.getitstat(), what, 1e-7)
    t.label('%s %s' % (m.kind, case['pat']))
    t.nontrivial(full.min() != full.max() and moved(ha))


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(kinds=('mask', 'mask', 'onlinemask', 'parmask')), 'o': dlm.OPTS, 'n': st.integers(1, 2), 'pat': PAT,
                                  'f': st.integers(0, 20), 'bin': st.booleans()}), quick=300, shards=8, budget=6)
def llayout(case, t):
    c, o = dict(case['c'], mask='ones', nproc=0), dict(case['o'])
    m = dlm.Model(c)
    full, forms = mask_forms(m.n, m.Nv, m.C, m.K, case['pat'], rng(c['seed'], 73), case['bin'])
    W = forms[case['f'] % len(forms)].copy()
    what = '%s(%s,%s): mask of shape %s given as %s' % (m.kind, m.xm, m.dm, full.shape, W.shape)
    x = {} if m.online else {'MaxMainIter': 1}
    m.W = full
    a = m.make(o, x)
    m.W = W
    b = m.make(o, x)
    for k in range(case['n']):
        if m.online:
            D, E = m.feed(a, m.S, full), m.feed(b, m.S, W)
        else:
            D, E = a.solve(), b.solve()
        if not np.all(np.isfinite(D)):
            t.skip('diverged')
        t.close(E, D, 1e-9, 1e-10, msg='%s: step %d' % (what, k))
    if not m.online:
        t.close(b.getcoef(), a.getcoef(), 1e-9, 1e-10, msg=what + ': coefficients')
        p16.stats_close(t, b.getitstat(), a.getitstat(), what, 1e-7)
    t.label('%s %s' % (m.kind, case['pat']))
    t.nontrivial(full.min() != full.max())
