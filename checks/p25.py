"""P25: layout inference; weight and mask layouts."""
import numpy as np
from vlib.core import Check, st, seeds, rng, arrspec, mkarr
from vlib import dsz as dz
from vlib.csc import layout, Prob, LAYOUTS
from sporco import cnvrep as cr
from sporco.admm import cbpdn, cbpdntv, ccmodmd
from sporco.pgm import cbpdn as pcbpdn, ccmod as pccmod

CHECK = Check('P25', scale=4, rule='the signal has more than one channel or signal, or the weight/mask array is '
              'given in a layout different from the internal one, or the combination is impossible',
              assumptions=['the documented convention (class docstrings of the indexing classes and of the '
                           'weight/mask shape functions) is restated in this file and in vlib/csc.py',
                           'weight layouts are those that name at most the axes of the signal plus the filter '
                           'axis, or the full internal layout'])


def verify_cri(cri, p, t, cdu=False):
    n = p.dimN
    dc, dk, kind = LAYOUTS[p.lay['name']]
    t.eq(tuple(cri.Nv), p.Nv, 'Nv')
    t.eq(int(cri.N), int(np.prod(p.Nv)), 'N')
    t.eq((cri.C, cri.K, cri.M, cri.Cd), (p.C, p.K, p.M, p.Cd), 'C, K, M, Cd')
    t.eq((cri.dimN, cri.dimC, cri.dimK), (n, dc, dk), 'dimN, dimC, dimK')
    t.eq(cri.dimCd, 0 if kind == 's' else 1, 'dimCd')
    t.eq((tuple(cri.axisN), cri.axisC, cri.axisK, cri.axisM), (tuple(range(n)), n, n + 1, n + 2), 'axes')
    t.eq(tuple(cri.shpS), p.shpS, 'shpS')
    t.eq(tuple(cri.shpX), p.shpX, 'shpX')
    t.eq(tuple(cri.shpD), (p.Nv if cdu else tuple(p.lay['fs'])) + (p.Cd, 1, p.M), 'shpD')


@CHECK.sub(st.fixed_dictionaries({'lay': layout(maxN=(12, 8, 5), maxC=4, maxK=4, maxM=4), 'seed': seeds()}),
           quick=1200, shards=2)
def csc(case, t):
    """Coding layout, and the signal/dictionary elements it addresses."""
    p = Prob(case['lay'], case['seed'])
    cri = cr.CSC_ConvRepIndexing(p.D, p.S, **p.kw)
    verify_cri(cri, p, t)
    # element by element: internal index (x.., c, k) of S is external S[x.., c?, k?]
    Si = p.S.reshape(cri.shpS)
    Di = p.D.reshape(cri.shpD)
    rs = rng(case['seed'], 8)
    for _ in range(6):
        x = tuple(rs.randint(s) for s in p.Nv)
        c, k, m = rs.randint(p.C), rs.randint(p.K), rs.randint(p.M)
        e = x + ((c,) if p.dimC else ()) + ((k,) if p.dimKs else ())
        t.eq(Si[x + (c, k, 0)], p.S[e], 'signal element')
        y = tuple(rs.randint(s) for s in p.lay['fs'])
        cd = rs.randint(p.Cd)
        ed = y + (() if LAYOUTS[p.lay['name']][2] == 's' else (cd,)) + (m,)
        t.eq(Di[y + (cd, 0, m)], p.D[ed], 'dictionary element')
    t.same(cr.stdformD(p.D, p.Cd, p.M, p.dimN), p.Di, 'stdformD')
    t.check(str(cri).startswith('{'), 'string form')
    t.label(p.lay['name'])
    t.nontrivial(p.C > 1 or p.K > 1)


@CHECK.sub(st.fixed_dictionaries({'d': dz.dsz_spec(), 'K': st.sampled_from([0, 0, 1, 2, 3]),
                                  'C': st.integers(1, 3), 'chn': st.booleans(),
                                  'grow': st.lists(st.integers(0, 3), min_size=3, max_size=3),
                                  'explicit': st.booleans(), 'a': arrspec()}),
           quick=1200, shards=2)
def cdu(case, t):
    """Dictionary-update layout from any size specification."""
    d = case['d']
    n = d['dimN']
    spec = dz.as_tuple(d['spec'])
    mx = dz.maxsize(d)
    ds = cr.DictionarySize(spec, n)
    t.eq(ds.nflt, d['M'], 'number of filters')
    t.eq(ds.nchn, d['C'], 'number of channels')
    t.eq(tuple(int(x) for x in ds.mxsz), mx, 'maximum filter size')
    hasC = d['form'] in 'BDE'
    t.eq(ds.ndim, n + (2 if hasC else 1), 'ndim')
    Nv = tuple(a + b for a, b in zip(mx, case['grow']))
    # signal
    C = d['C'] if d['C'] > 1 else (case['C'] if (case['chn'] or hasC) else 1)
    sC = hasC or (case['chn'])
    K = case['K']
    shp = Nv + ((C,) if sC else ()) + ((K,) if K else ())
    dimK = (1 if K else 0)
    if not (sC and not hasC and not K) and not case['explicit']:
        dimK = None
    S = mkarr(case['a'], shp)
    cri = cr.CDU_ConvRepIndexing(spec, S, dimK=dimK, dimN=n)
    C = C if sC else 1
    Ki = K if K else 1
    Cx = 1 if d['C'] > 1 else C
    t.eq((cri.C, cri.K, cri.M, cri.Cd, cri.Cx), (C, Ki, d['M'], d['C'], Cx), 'C, K, M, Cd, Cx')
    t.eq(tuple(cri.Nv), Nv, 'Nv')
    t.eq(int(cri.N), int(np.prod(Nv)), 'N')
    t.eq(tuple(cri.shpD), Nv + (d['C'], 1, d['M']), 'shpD')
    t.eq(tuple(cri.shpS), Nv + (C, Ki, 1), 'shpS')
    t.eq(tuple(cri.shpX), Nv + (Cx, Ki, d['M']), 'shpX')
    t.eq((tuple(cri.axisN), cri.axisC, cri.axisK, cri.axisM), (tuple(range(n)), n, n + 1, n + 2), 'axes')
    t.eq((cri.dimN, cri.dimC, cri.dimK), (n, int(sC), 1 if K else 0), 'dims')
    t.eq(cri.dimCd, int(hasC), 'dimCd')
    # zero pad / crop pair: crop(pad(crop)) keeps exactly the supported entries
    v = mkarr(case['a'], Nv + (d['C'], 1, d['M']), salt=2)
    mk = dz.mask(d, Nv).reshape(v.shape)
    cro = cr.bcrop(v, spec, n)
    t.eq(cro.shape, mx + (d['C'], 1, d['M']), 'cropped shape')
    t.same(cr.zpad(cro, Nv), np.where(mk, v, 0), 'pad(crop)')
    t.same(cr.bcrop(cr.zpad(cro, Nv), spec, n), cro, 'crop(pad(crop))')
    t.label('form' + d['form'])
    t.nontrivial(C > 1 or Ki > 1 or d['form'] in 'CDE')


@CHECK.sub(st.fixed_dictionaries({'lay': layout(maxN=(6, 5, 3), maxC=4, maxK=3), 'seed': seeds(),
                                  'bad': st.sampled_from(['chn', 'dimk', 'extra', 'sig1']),
                                  'dC': st.integers(1, 3), 'who': st.sampled_from(['cri', 'admm', 'pgm', 'cdu'])}),
           quick=500, shards=1)
def impossible(case, t):
    """Impossible combinations raise instead of computing something."""
    p = Prob(case['lay'], case['seed'])
    n = p.dimN
    rs = rng(case['seed'], 4)
    kw = dict(p.kw)
    S = p.S
    Cd = p.C + case['dC'] if case['bad'] != 'dimk' else p.C + 1
    D = rs.randn(*(tuple(p.lay['fs']) + (Cd, p.M)))
    bad = case['bad']
    if bad == 'chn' and p.C == 1 and not p.dimC:
        # dictionary with more channels than the (single channel) signal
        S = p.S if not p.dimKs else p.S
        kw['dimK'] = p.dimKs
    elif bad == 'chn':
        kw['dimK'] = p.dimKs
    elif bad == 'dimk':
        # one extra index declared to be a signal index, dictionary multi-channel
        S = rs.randn(*(p.Nv + (Cd,)))
        kw['dimK'] = 1
    elif bad == 'sig1':
        # no extra index, multi-channel dictionary
        S = rs.randn(*p.Nv)
        kw['dimK'] = None
    else:
        # more axes than the convention has room for
        D = p.D
        S = rs.randn(*(p.Nv + (2, 2, 2)))
        kw['dimK'] = None
    mk = {'cri': lambda: S.reshape(cr.CSC_ConvRepIndexing(D, S, **kw).shpS),
          'cdu': lambda: S.reshape(cr.CDU_ConvRepIndexing(D.shape, S, **kw).shpS),
          'admm': lambda: cbpdn.ConvBPDN(D, S, 0.1, cbpdn.ConvBPDN.Options({'MaxMainIter': 2}), **kw).solve(),
          'pgm': lambda: pcbpdn.ConvBPDN(D, S, 0.1, pcbpdn.ConvBPDN.Options({'MaxMainIter': 2}),
                                         **kw).solve()}[case['who']]
    try:
        r = mk()
    except Exception as e:
        if bad in ('chn', 'dimk', 'sig1') and case['who'] in ('cri', 'cdu'):
            t.check(isinstance(e, ValueError), 'mismatched channels: %s', type(e).__name__)
        t.label(bad)
        t.nontrivial(True)
        return
    t.check(False, 'impossible combination accepted (%s): D %s, S %s, dimK %s gave %s', bad, D.shape, S.shape,
            kw['dimK'], np.shape(r))




@st.composite
def weightcase(draw, names=tuple(LAYOUTS)):
    lay = draw(layout(names=names, maxN=(6, 4, 3), maxf=(3, 2, 2), maxC=3, maxK=3, dimNs=(1, 2, 2, 3)))
    return dict(lay=lay, seed=draw(seeds()), form=draw(st.sampled_from(['full', 'sig', 'internal', 'scalar'])),
                ones=[draw(st.booleans()) for _ in range(lay['dimN'] + 3)],
                who=draw(st.sampled_from(['shape', 'shape', 'ConvBPDN', 'ConvBPDNJoint', 'AddMaskSim',
                                          'ConvL1L1Grd', 'ConvMinL1InL2Ball', 'tv', 'vtv', 'ConvElasticNet'])))


@CHECK.sub(weightcase(), quick=700, shards=6, budget=15)
def l1weight(case, t):
    """Each weight layout acts as its explicit internal expansion."""
    p = Prob(case['lay'], case['seed'])
    n = p.dimN
    rs = rng(case['seed'], 6)
    o = case['ones']
    # internal weight: an axis is either full size or one
    full = p.shpX
    ish = tuple(1 if o[i] else full[i] for i in range(n + 3))
    form = case['form']
    if form == 'scalar':
        W = np.asarray(0.3 + rs.rand())
        Wi = W.reshape((1,) * (n + 3))
        sdim = n + p.dimC + p.dimKs
        W = W.reshape((1,) * rs.randint(0, sdim))
        t.label('scalar_ndim%d' % W.ndim)
        # an array with several elements and fewer axes than the signal is not a weight
        bad = np.ones((2,) + (1,) * rs.randint(0, sdim - 1)) if sdim > 1 else None
        if bad is not None:
            try:
                r = cr.l1Wshape(bad, cr.CSC_ConvRepIndexing(p.D, p.S, **p.kw))
            except ValueError:
                t.label('invalid weight rejected')
            else:
                t.check(False, 'weight of shape %s accepted for a signal of shape %s: %s', bad.shape, p.S.shape, r)
    elif form == 'internal':
        Wi = 0.3 + rs.rand(*ish)
        W = Wi
    else:
        # shape S.shape + (M,) or S.shape: omit the axes S does not have; in a
        # multi-channel dictionary the coefficient maps have one channel
        if form == 'sig':
            ish = ish[:-1] + (1,)
        Wi = 0.3 + rs.rand(*ish)
        ext = ish[:n] + (ish[n:n + 1] if p.dimC else ()) + (ish[n + 1:n + 2] if p.dimKs else ())
        if form == 'full':
            ext = ext + ish[n + 2:]
        if not p.dimC and ish[n] != 1 or not p.dimKs and ish[n + 1] != 1:
            raise AssertionError('layout')
        W = Wi.reshape(ext)
    cri = cr.CSC_ConvRepIndexing(p.D, p.S, **p.kw)
    t.eq(tuple(cr.l1Wshape(W, cri)), Wi.shape, 'internal weight shape')
    who = case['who']
    if who != 'shape':
        if n == 3 and who in ('tv', 'vtv'):
            who = 'ConvBPDN'
        base = {'Verbose': False, 'MaxMainIter': 6, 'rho': 2.0, 'AutoRho': {'Enabled': False}, 'RelStopTol': 0.0}
        lm = 0.1 * p.lmax()

        def run(wt):
            b = dict(base, L1Weight=wt)
            if who == 'ConvBPDN':
                c = cbpdn.ConvBPDN(p.D, p.S, lm, cbpdn.ConvBPDN.Options(b), **p.kw)
            elif who == 'ConvElasticNet':
                c = cbpdn.ConvElasticNet(p.D, p.S, lm, 0.1, cbpdn.ConvElasticNet.Options(b), **p.kw)
            elif who == 'ConvBPDNJoint':
                c = cbpdn.ConvBPDNJoint(p.D, p.S, lm, 0.1 * lm, cbpdn.ConvBPDNJoint.Options(b), **p.kw)
            elif who == 'AddMaskSim':
                # the weight belongs to the wrapped solver's coefficient maps, including those of the
                # appended impulse filters; only weights common to all filters are comparable
                c = cbpdn.ConvBPDNGradReg(p.D, p.S, lm, 0.1, cbpdn.ConvBPDNGradReg.Options(b), **p.kw)
            elif who == 'ConvL1L1Grd':
                c = cbpdn.ConvL1L1Grd(p.D, p.S, lm, 0.05, None, cbpdn.ConvL1L1Grd.Options(b), **p.kw)
            elif who == 'ConvMinL1InL2Ball':
                c = cbpdn.ConvMinL1InL2Ball(p.D, p.S, 0.5, cbpdn.ConvMinL1InL2Ball.Options(b), **p.kw)
            elif who == 'tv':
                c = cbpdntv.ConvBPDNScalarTV(p.D, p.S, lm, 0.1 * lm, cbpdntv.ConvBPDNScalarTV.Options(b), **p.kw)
            elif who == 'vtv':
                c = cbpdntv.ConvBPDNVectorTV(p.D, p.S, lm, 0.1 * lm, cbpdntv.ConvBPDNVectorTV.Options(b), **p.kw)
            X = c.solve()
            its = c.getitstat()
            return np.asarray(X), its
        Xa, ia = run(W)
        We = np.broadcast_to(Wi, full).copy()
        Xb, ib = run(We)
        t.eq(Xa.shape, full, 'coefficient shape')
        t.close(Xa, Xb, rtol=1e-8, atol=1e-10, msg='%s: weight layout %s vs expansion' % (who, W.shape))
        t.close(np.asarray(ia.RegL1 if hasattr(ia, 'RegL1') else ia.ObjFun),
                np.asarray(ib.RegL1 if hasattr(ib, 'RegL1') else ib.ObjFun), rtol=1e-8, atol=1e-10, msg='statistics')
        t.label(who)
    t.label('form_' + form)
    t.nontrivial(W.shape != Wi.shape or p.C > 1 or p.K > 1)


@CHECK.sub(st.fixed_dictionaries({'lay': layout(maxN=(6, 4, 3), maxf=(3, 2, 2), maxC=3, maxK=3),
                                  'seed': seeds(), 'form': st.sampled_from(['S', 'spatial', 'one', 'internal']),
                                  'ones': st.lists(st.booleans(), min_size=5, max_size=5),
                                  'who': st.sampled_from(['shape', 'shape', 'pgm', 'maskdcpl', 'l1grd', 'cdu'])}),
           quick=700, shards=6, budget=12)
def mask(case, t):
    """Each mask layout acts as its explicit internal expansion."""
    p = Prob(case['lay'], case['seed'])
    n = p.dimN
    rs = rng(case['seed'], 6)
    o = case['ones']
    full = p.shpS
    ish = tuple(1 if o[i] else full[i] for i in range(n + 2)) + (1,)
    form = case['form']
    if form == 'spatial':
        ish = ish[:n] + (1, 1, 1)
        ext = ish[:n]
    elif form == 'internal':
        ext = ish
    elif form == 'one':
        # a single non-spatial axis: channel or signal as in S; channel when both are there
        if p.C == 1 and p.K > 1:
            ish = ish[:n] + (1, ish[n + 1], 1)
            ext = ish[:n] + (ish[n + 1],)
        else:
            ish = ish[:n] + (ish[n], 1, 1)
            ext = ish[:n] + (ish[n],)
    else:
        ext = ish[:n] + (ish[n:n + 1] if p.dimC else ()) + (ish[n + 1:n + 2] if p.dimKs else ())
    W = (rs.rand(*ish) < 0.6) * 1.0
    Wx = W.reshape(ext)
    cri = cr.CSC_ConvRepIndexing(p.D, p.S, **p.kw)
    dszx = p.D.shape
    cdi = cr.CDU_ConvRepIndexing(dszx, p.S, **p.kw)
    t.eq(tuple(cr.mskWshape(Wx, cri)), ish, 'internal mask shape (coding)')
    t.eq(tuple(cr.mskWshape(Wx, cdi)), ish, 'internal mask shape (update)')
    who = case['who']
    if who != 'shape':
        We = np.broadcast_to(W, full).copy()
        lm = 0.1 * p.lmax()

        def run(w):
            if who == 'pgm':
                b = pcbpdn.ConvBPDNMask(p.D, p.S, lm, w, pcbpdn.ConvBPDNMask.Options(
                    {'MaxMainIter': 6, 'L': float(1.5 * p.lip()), 'RelStopTol': 0.0}), **p.kw)
                return b.solve()
            if who == 'maskdcpl':
                b = cbpdn.ConvBPDNMaskDcpl(p.D, p.S, lm, w, cbpdn.ConvBPDNMaskDcpl.Options(
                    {'MaxMainIter': 6, 'rho': 2.0, 'AutoRho': {'Enabled': False}, 'RelStopTol': 0.0}), **p.kw)
                return b.solve()
            if who == 'l1grd':
                b = cbpdn.ConvL1L1Grd(p.D, p.S, lm, 0.05, w, cbpdn.ConvL1L1Grd.Options(
                    {'MaxMainIter': 6, 'rho': 2.0, 'AutoRho': {'Enabled': False}, 'RelStopTol': 0.0}), **p.kw)
                return b.solve()
            Z = rng(case['seed'], 31).randn(*p.shpX)
            b = pccmod.ConvCnstrMODMask(Z, p.S, w, dszx, pccmod.ConvCnstrMODMask.Options(
                {'MaxMainIter': 5, 'L': 1e3, 'RelStopTol': 0.0}), **p.kw)
            return b.solve()
        t.close(run(Wx), run(We), rtol=1e-8, atol=1e-10, msg='%s: mask layout %s vs expansion' % (who, Wx.shape))
        t.label(who)
    t.label('form_' + form)
    t.nontrivial(Wx.shape != full)
