"""P08: convolutional sparse coding solvers reach the stated optimum."""
import numpy as np
from vlib.core import Check, st, rng
from vlib import ref
from vlib import solvers as sv
from vlib import inhib
from vlib.statm import grab
from vlib.conv import converge
from sporco.pgm.momentum import MomentumNesterov, MomentumLinear, MomentumGenLinear
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust

CHECK = Check('P08', rule='the reference optimum lies strictly between zero and 99% of the objective of the '
              'all-zero coefficients, so both fidelity and regularisation matter',
              assumptions=['optimality is judged from above against an independent dense SDMM solver built from '
                           'direct circular convolution matrices (reference error can only weaken the check)',
                           'tolerance 1e-3 relative; a run that is still moving after 4500 iterations is repeated '
                           'with other penalties before it counts',
                           'small problems: up to 10 samples (1-D), 6x6 or 4x4x4, 3 filters, 3 channels, 2 signals',
                           'AddMaskSim is not combined with the TV classes'])


@CHECK.known_finding('addmasksim-elasticnet', 'AddMaskSim around ConvElasticNet with mu > 0: the l2 term also acts on '
                     'the appended impulse maps, so samples with mask weight zero still influence the solution')
def _ams_en(t):
    from sporco.admm import cbpdn
    D = np.ones((1, 1))
    W = np.array([1.0, 0.0])
    r = []
    for v in (1.0, 5.0):
        b = cbpdn.AddMaskSim(cbpdn.ConvElasticNet, D, np.array([1.0, v]), W, 0.01, 0.5,
                             cbpdn.ConvElasticNet.Options({'MaxMainIter': 500, 'rho': 1.0, 'RelStopTol': 1e-9}), dimK=0, dimN=1)
        r.append(np.asarray(b.solve()))
    t.close(r[0], r[1], rtol=1e-4)

OPT = st.fixed_dictionaries({
    'rho': st.sampled_from([None, None, 0.2, 1.0, 5.0]),
    'relax': st.sampled_from([1.0, 1.5, 1.8]),
    'auto': st.sampled_from(['off', 'off', 'default']),
    'auxobj': st.booleans(), 'retx': st.booleans(), 'hms': st.booleans(), 'chk': st.booleans(),
    'y0': st.sampled_from(['none', 'none', 'rand']),
})

PCASE = st.fixed_dictionaries({'c': sv.case(sv.ADMM_EQ + sv.ADMM_2B + sv.WRAP + sv.PDCSC, maxN=(8, 4, 3)), 'o': OPT})
TCASE = st.fixed_dictionaries({'c': sv.case(sv.ADMM_TV, maxN=(8, 4, 3), maxK=1, dimNs=(1, 1, 2, 2)), 'o': OPT})


def opts_for(m, o, rho=None, plain=False):
    d = {'MaxMainIter': 100, 'RelStopTol': 1e-6, 'RelaxParam': 1.8 if plain else o['relax']}
    r = rho if rho is not None else o['rho']
    if r is not None:
        d['rho'] = float(r * m.rho0())
    if o['auto'] == 'off' or plain:
        d['AutoRho'] = {'Enabled': False}
    k = m.eff
    if k not in sv.ADMM_2B:
        if k != 'ConvProdDictL1L1Grd' and k != 'ConvProdDictL1L1GrdJoint':
            d['AuxVarObj'] = o['auxobj']
        if not m.nn and not m.nb and k != 'ConvBPDNProjL1' and k not in sv.L1FID:
            d['ReturnX'] = o['retx']
    else:
        d['AuxVarObj'] = o['auxobj']
    if k != 'ConvBPDNGradReg':
        d['HighMemSolve'] = o['hms']
    d['LinSolveCheck'] = o['chk']
    return d


def valid(m, d):
    """Drop options a class does not document."""
    oc = m.optcls()()
    return {k: v for k, v in d.items() if k in oc}


def evaluator(m, t):
    def ev(b, X):
        X = np.asarray(X)
        t.check(X.shape == m.shpX, '%s: coefficient shape %s, expected %s', m.kind, X.shape, m.shpX)
        bad = m.infeasible(X)
        t.check(not bad, '%s: %s', m.kind, bad)
        ok = True
        if m.eff == 'ConvMinL1InL2Ball':
            ok = m.ball_excess(X) <= 1e-3
        return m.objective(X), ok
    return ev


def after(m, t, b, X, rtol=1e-9):
    X = np.asarray(X)
    t.check(X.dtype == m.dtype, '%s: coefficient dtype %s', m.kind, X.dtype)
    got = np.asarray(b.getcoef())
    t.same(got, X, m.kind + ' getcoef')
    exp = m.synth(X)
    rf = rtol if m.dtype == np.float64 else 1e-4

    def recon(*a):
        if m.kind != 'MultiDict':
            return np.asarray(b.reconstruct(*a)).reshape(exp.shape)
        parts = []
        for k, (i, j) in enumerate(m.splits()):
            sh = exp.shape[:m.n] + (j - i,) + exp.shape[m.n + 1:]
            parts.append(np.asarray(b.reconstruct(k, *a)).reshape(sh))
        return np.concatenate(parts, axis=m.n)
    t.close(recon(X), exp, rtol=rf, atol=rf, msg=m.kind + ' reconstruct(X)')
    # without an argument the primal or the auxiliary variable may be used:
    # equal at convergence only
    t.close(recon(), exp, rtol=0.1, atol=0.2 * np.abs(m.p.S64).max(), msg=m.kind + ' reconstruct()')


def admm_body(case, t):
    c, o = case['c'], case['o']
    m = sv.Model(c)
    Fref, Xr = m.reference()
    if not np.isfinite(Fref):
        t.skip('reference found no feasible point')
    d = valid(m, opts_for(m, o))
    if o['y0'] == 'rand' and m.kind in sv.ADMM_EQ:
        d['Y0'] = rng(c['seed'], 5).randn(*m.shpX)
        if m.nn:
            d['Y0'] = np.abs(d['Y0'])

    def mk(rho):
        return lambda: m.make(valid(m, opts_for(m, o, rho=rho, plain=True)))
    F0 = m.fzero()
    b, X = converge(t, m.make(d), [mk(1.0), mk(0.05), mk(15.0), mk(0.003), mk(200.0)], evaluator(m, t), Fref, F0,
                    m.kind + ('/' + m.inner if m.inner else ''), strict=o['auto'] == 'off',
                    fplan=((1000, 1e-8), (8000, 0.0)))
    after(m, t, b, X)
    t.label(m.kind)
    t.label('nn', m.nn)
    t.label('nb', m.nb)
    t.label('dimN%d' % m.n)
    t.label('lay_' + c['lay']['name'])
    t.nontrivial(0 < Fref < 0.99 * F0)


@CHECK.sub(PCASE, quick=480, shards=8, budget=17)
def admm(case, t):
    admm_body(case, t)


@CHECK.sub(TCASE, quick=160, shards=6, budget=14)
def tv(case, t):
    admm_body(case, t)


@CHECK.sub(st.fixed_dictionaries({
    'c': sv.case(sv.PGM, maxN=(8, 4, 3)), 'L': st.sampled_from([1.0, 1.2, 3.0]),
    'L0': st.sampled_from([0.05, 0.3, 1.0, 2.0]),
    'mom': st.sampled_from(['nesterov', 'linear', 'genlinear', 'default']),
    'bt': st.sampled_from(['none', 'none', 'std', 'robust']), 'mono': st.booleans(),
    'x0': st.sampled_from(['none', 'rand']), 'f32': st.sampled_from([False, False, False, True])}),
    quick=240, shards=6, budget=14)
def pgm(case, t):
    c = case['c']
    f32 = case['f32'] and case['bt'] == 'none'
    m = sv.Model(c, 'float32' if f32 else 'float64')
    Fref, Xr = m.reference()
    lip = m.lipA * max(m.Wi.max()**2, 1e-3)
    d = {'MaxMainIter': 200, 'RelStopTol': 1e-6, 'Monotone': case['mono']}
    if case['bt'] == 'none':
        d['L'] = float(case['L'] * lip * 1.001)
    else:
        d['L'] = float(case['L0'] * lip)
        d['Backtrack'] = BacktrackStandard() if case['bt'] == 'std' else BacktrackRobust()
    if case['mom'] != 'default':
        d['Momentum'] = {'nesterov': MomentumNesterov, 'linear': MomentumLinear,
                         'genlinear': MomentumGenLinear}[case['mom']]()
    if case['x0'] == 'rand':
        d['X0'] = rng(c['seed'], 5).randn(*m.shpX).astype(m.dtype)
    F0 = m.fzero()

    def mk():
        return m.make({'L': float(1.001 * lip), 'Momentum': MomentumNesterov(), 'MaxMainIter': 1000})
    b, X = converge(t, m.make(d), [mk], evaluator(m, t), Fref, F0, m.kind, strict=False)
    after(m, t, b, X)
    t.label(m.kind)
    t.label('bt_' + case['bt'])
    t.label('nn', m.nn)
    t.nontrivial(0 < Fref < 0.99 * F0)


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ParConvBPDN'], maxN=(8, 4, 3), dimNs=(1, 2, 2), minN=2), 'relax': st.sampled_from([1.0, 1.6]),
                                  'ng': st.integers(1, 3), 'np': st.integers(1, 3)}),
           quick=24, shards=4, budget=16)
def parallel(case, t):
    c = case['c']
    m = sv.Model(c)
    if m.w.ndim == 0 and m.c['wl1'] == 'scalar':
        t.label('scalar weight')
    Fref, Xr = m.reference()
    F0 = m.fzero()

    def mk(rho):
        return m.make({'rho': float(rho), 'RelaxParam': case['relax'], 'MaxMainIter': 200, 'AutoRho': {'Enabled': False}},
                      nproc=case['np'], par=min(case['ng'], m.p.M))
    b, X = converge(t, mk(1.0), [lambda: mk(0.1), lambda: mk(10.0), lambda: mk(0.01)], evaluator(m, t), Fref, F0, 'ParConvBPDN', strict=False,
                    plan=((300, 0.0), (1200, 0.0)), fplan=((2000, 0.0),))
    after(m, t, b, X)
    t.nontrivial(0 < Fref < 0.99 * F0)


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ConvBPDN', 'pgm.ConvBPDN'], maxN=(8, 5, 3), names=('plain', 'K', 'Cm', 'C1'))}),
           quick=60, shards=2, budget=8)
def threshold(case, t):
    """A value above the largest correlation gives the zero solution, one
    below it does not; lmbda may be omitted."""
    c = dict(case['c'], nn=False, nb=False, wl1='one')
    m = sv.Model(c)
    lm = np.abs(m.bigmat().T @ m.packS()).max()
    if lm < 1e-3:
        t.skip('no correlation')
    X = []
    for v in (0.1 * lm, 1.1 * lm, None):
        m.lmbda = v
        d = {'MaxMainIter': 300, 'RelStopTol': 1e-8}
        if m.kind == 'pgm.ConvBPDN':
            d['L'] = 1.01 * m.lipA
        else:
            d['rho'] = m.rho0()
        X.append(np.asarray(m.make(d).solve()))
    t.check(np.abs(X[1]).max() <= 1e-4 * np.abs(X[0]).max() + 1e-6, '%s: non-zero solution above the threshold: %g',
            m.kind, np.abs(X[1]).max())
    t.check(np.abs(X[0]).max() > 0, 'zero solution at a tenth of the threshold')
    t.finite(X[2], 'lmbda=None')
    t.nontrivial(True)


@CHECK.sub(st.fixed_dictionaries({'q': inhib.CASE, 'n': st.integers(2, 6), 'rho': st.sampled_from([0.3, 1.0, 4.0]),
                                  'relax': st.sampled_from([1.0, 1.8])}), quick=500, shards=4, budget=6)
def inhibition(case, t):
    """Solver with inhibition: every iteration is the ADMM iteration of the
    weighted l1 problem with the documented weights of the previous iterate."""
    q = inhib.Inhib(case['q'])
    m = q.m
    caps = []
    rho = float(case['rho'] * m.rho0())
    b = q.make({'MaxMainIter': case['n'], 'RelStopTol': 0.0, 'RelaxParam': case['relax'], 'rho': rho, 'AutoRho': {'Enabled': False},
                'Callback': lambda s: caps.append(grab(s)) and None})
    b.solve()
    A, s = m.bigmat(), m.packS()
    wts = q.weights([c['X'] for c in caps])
    Y = U = np.zeros(m.shpX)
    l = w = np.zeros(m.shpX)
    what = 'ConvBPDNInhib: iteration %d: %s'
    for k, c in enumerate(caps):
        x, z = m.pack(c['X']), m.pack(Y - U)
        g = A.T @ (A @ x - s) + rho * (x - z)
        t.close(g, 0 * g, 0, 1e-8 * (1 + rho) * max(1.0, np.abs(x).max() * m.lipA, np.abs(s).max()), msg=what % (k, 'gradient of the coefficient step'))
        AX = case['relax'] * c['X'] + (1 - case['relax']) * Y
        V = AX + U
        Y1 = np.sign(V) * np.maximum(np.abs(V) - (m.lmbda * m.wf + q.mu * l + q.gam * w) / rho, 0)
        if m.nn:
            Y1 = np.maximum(Y1, 0)
        Y1[m.zmask] = 0
        sc = np.abs(V).max(initial=0)
        t.close(c['Y'], Y1, 1e-9, 1e-9 * (1 + sc), msg=what % (k, 'thresholded coefficients'))
        t.close(c['U'], V - c['Y'], 1e-9, 1e-9 * (1 + sc), msg=what % (k, 'dual variable'))
        Y, U = c['Y'], c['U']
        l, w = wts[k]
    t.label('lateral', q.lat)
    t.label('self', q.slf)
    t.nontrivial((q.lat or q.slf) and np.any(Y) and np.any(Y == 0))
