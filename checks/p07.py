"""P07: non-convolutional sparse coding solvers reach the stated optimum."""
import copy
import numpy as np
from vlib.core import Check, st, seeds, mkarr, rng
from vlib import ref
from vlib.conv import converge
from sporco.admm import bpdn as abpdn
from sporco.pgm import bpdn as pbpdn
from sporco.pgm.momentum import MomentumNesterov, MomentumLinear, MomentumGenLinear
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust

CHECK = Check('P07', rule='the optimal coefficients (reference) are neither all zero nor unaffected by '
              'the regulariser: 0 < optimum objective < objective at zero by more than 1%',
              assumptions=['optimality is judged from above: objective(code) <= objective(reference) + tol, '
                           'the reference being an independent dense SDMM solver, so reference error can only '
                           'weaken the check', 'tolerance 1e-3 relative; a run that is still moving after 4500 iterations is repeated with other penalty '
                           'or step parameters before it counts',
                           'Cauchy and Barzilai-Borwein step sizes carry no convergence guarantee and are left '
                           'to P12', 'small dense problems (up to 9x10 dictionaries, 3 signals)'])

def feas_tol(scale):
    return 2e-3 * scale + 1e-5


problem = st.fixed_dictionaries({
    'seed': seeds(), 'r': st.integers(2, 9), 'c': st.integers(1, 10), 'm': st.integers(1, 3),
    'kind': st.sampled_from(['normal', 'unit', 'smallint', 'corr']),
    'skind': st.sampled_from(['normal', 'synth', 'smallint']),
    'lam': st.sampled_from([0.01, 0.05, 0.1, 0.3, 0.6, 0.95]),
    'mu': st.sampled_from([0.0, 0.05, 0.3, 1.0]),
    'wl1': st.sampled_from(['one', 'scalar', 'row', 'col', 'full', 'fullzero']),
    'nn': st.booleans(),
    'f32': st.sampled_from([False, False, False, True]),
})


def build(p):
    rs = rng(p['seed'])
    r, c, m = p['r'], p['c'], p['m']
    if p['kind'] == 'smallint':
        D = rs.randint(-2, 3, size=(r, c)).astype(float)
        D[rs.randint(r, size=c), np.arange(c)] += 1.0
    elif p['kind'] == 'corr':
        D = rs.randn(r, c) + 1.5 * rs.randn(r, 1)
    else:
        D = rs.randn(r, c)
    if p['kind'] == 'unit':
        D /= np.linalg.norm(D, axis=0, keepdims=True)
    if p['skind'] == 'synth':
        S = D.dot(rs.randn(c, m) * (rs.rand(c, m) < 0.4)) + 0.05 * rs.randn(r, m)
    elif p['skind'] == 'smallint':
        S = rs.randint(-3, 4, size=(r, m)).astype(float)
    else:
        S = rs.randn(r, m)
    w = {'one': 1.0, 'scalar': 0.5 + rs.rand(), 'row': 0.2 + 2 * rs.rand(1, m),
         'col': 0.2 + 2 * rs.rand(c, 1), 'full': 0.2 + 2 * rs.rand(c, m),
         'fullzero': rs.rand(c, m) * (rs.rand(c, m) < 0.7)}[p['wl1']]
    lmx = max(np.abs(D.T.dot(S)).max(), 1e-3)
    return D, S, w, lmx


def admm_opts():
    return st.fixed_dictionaries({
        'rho': st.sampled_from([None, None, 0.3, 1.0, 5.0]),
        'relax': st.sampled_from([1.0, 1.3, 1.6, 1.8]),
        'auto': st.sampled_from(['default', 'default', 'off', 'std']),
        'auxobj': st.booleans(), 'retx': st.booleans()})


def mkopt(cls, o, scale, extra):
    d = {'Verbose': False, 'MaxMainIter': 200, 'RelStopTol': 1e-6, 'RelaxParam': o['relax']}
    if o['rho'] is not None:
        d['rho'] = float(o['rho'] * scale)
    if o['auto'] == 'off':
        d['AutoRho'] = {'Enabled': False}
    elif o['auto'] == 'std':
        d['AutoRho'] = {'Enabled': True, 'StdResiduals': True, 'Period': 4, 'Scaling': 2.0,
                        'AutoScaling': False, 'RsdlRatio': 5.0}
    d.update(extra)
    return cls.Options(d)


ADMM_KINDS = ['BPDN', 'BPDNJoint', 'ElasticNet', 'BPDNProjL1', 'MinL1InL2Ball']


@CHECK.sub(st.fixed_dictionaries({'p': problem, 'cls': st.sampled_from(ADMM_KINDS), 'o': admm_opts(),
                                  'eps': st.sampled_from([0.05, 0.3, 0.6]),
                                  'y0': st.sampled_from(['none', 'none', 'rand'])}),
           quick=420, shards=8, budget=18)
def admm(case, t):
    p, cls, o = case['p'], case['cls'], case['o']
    D, S, w, lmx = build(p)
    r, c, m = p['r'], p['c'], p['m']
    lmbda, mu = p['lam'] * lmx, p['mu'] * lmx
    nn = p['nn']
    f32 = p['f32']
    if f32:
        D, S = D.astype(np.float32), S.astype(np.float32)
    D64, S64 = D.astype(float), S.astype(float)
    wf = np.broadcast_to(np.asarray(w, dtype=float), (c, m))
    F0 = 0.5 * np.sum(S64**2)
    K = getattr(abpdn, cls)
    ex = {'NonNegCoef': nn}
    if case['y0'] == 'rand' and cls != 'MinL1InL2Ball':
        ex['Y0'] = rng(p['seed'], 5).randn(c, m).astype(S.dtype)
    if cls != 'BPDNProjL1':
        ex['L1Weight'] = w
    if cls != 'MinL1InL2Ball':
        ex['AuxVarObj'] = o['auxobj']
        ex['ReturnX'] = o['retx'] and not nn and cls != 'BPDNProjL1'
    quad = [(D64, S64, 1.0)]
    scale = max(np.linalg.norm(D64, 2)**2 / 4, 1e-2)
    if cls == 'BPDN':
        args = (lmbda,)
        terms = [(None, 0.0, (ref.L1NN if nn else ref.L1)(lmbda * wf))]
    elif cls == 'BPDNJoint':
        args = (lmbda, mu)
        terms = [(None, 0.0, ref.L1L21(lmbda * wf, mu, (c, m), (1,), nn=nn))]
    elif cls == 'ElasticNet':
        args = (lmbda, mu)
        terms = [(None, 0.0, (ref.L1NN if nn else ref.L1)(lmbda * wf))]
        quad.append((np.eye(c), np.zeros((c, m)), mu))
    elif cls == 'BPDNProjL1':
        gamma = case['eps'] * 2 * max(np.abs(np.linalg.lstsq(D64, S64, rcond=None)[0]).sum(axis=0).max(), 1e-2)
        args = (gamma,)
        terms = [(None, 0.0, ref.BallL1(gamma, (c, m), (0,), nn=nn))]
    else:
        res = S64 - D64.dot(np.linalg.lstsq(D64, S64, rcond=None)[0])
        if nn:
            import scipy.optimize as so
            lsr = max(so.nnls(D64, S64[:, k])[1] for k in range(m))
        else:
            lsr = np.sqrt((res**2).sum(axis=0)).max()
        eps = lsr * 1.05 + case['eps'] * np.sqrt((S64**2).sum(axis=0)).max()
        args = (eps,)
        scale = 1.0
        terms = [(None, 0.0, (ref.L1NN if nn else ref.L1)(wf)),
                 (D64, S64, ref.BallL2(eps, axes=0, tol=1e-5))]
        quad = []
        F0 = max(np.sum(wf * np.abs(np.linalg.lstsq(D64, S64, rcond=None)[0])), 1e-3)
    Fref, Xr = ref.solve(c, m, terms, quad)
    if not np.isfinite(Fref):
        t.skip('reference found no feasible point')

    def ev(b, X):
        X = np.asarray(X, dtype=float)
        if X.shape != (c, m):
            t.check(False, '%s: shape %s' % (cls, X.shape))
        ok = True
        if nn:
            if cls == 'MinL1InL2Ball':
                ok = X.min() >= -feas_tol(np.abs(X).max())
            else:
                t.check(X.min() >= 0, '%s: negative coefficient with NonNegCoef', cls)
        fq = 0.5 * np.sum((D64.dot(X) - S64)**2)
        l1 = np.sum(wf * np.abs(X))
        if cls == 'BPDN':
            return fq + lmbda * l1, ok
        if cls == 'BPDNJoint':
            return fq + lmbda * l1 + mu * np.sum(np.sqrt(np.sum(X**2, axis=1))), ok
        if cls == 'ElasticNet':
            return fq + lmbda * l1 + 0.5 * mu * np.sum(X**2), ok
        if cls == 'BPDNProjL1':
            t.check(np.abs(X).sum(axis=0).max() <= gamma * (1 + (1e-4 if f32 else 1e-8)) + 1e-8,
                    '%s: outside the l1 ball', cls)
            return fq, ok
        n = np.sqrt(np.sum((D64.dot(X) - S64)**2, axis=0)).max()
        return l1, ok and n <= eps * (1 + 1e-3) + 1e-6
    def mk(rho):
        return lambda: K(D, S, *(args + (mkopt(K, dict(o, rho=rho, auto='off'), scale, ex),)))
    b, X = converge(t, K(D, S, *(args + (mkopt(K, o, scale, ex),))),
                    [mk(1.0), mk(0.05), mk(10.0), mk(100.0)], ev, Fref, F0, cls, strict=o['auto'] != 'std' and not f32)
    t.check(np.asarray(X).dtype == S.dtype, '%s: dtype %s', cls, np.asarray(X).dtype)
    t.label(cls)
    t.label(cls + '_nn', nn)
    t.nontrivial(0 < Fref < 0.99 * F0)


PGM_KINDS = ['BPDN', 'WeightedBPDN']


@CHECK.sub(st.fixed_dictionaries({
    'p': problem, 'cls': st.sampled_from(PGM_KINDS), 'L': st.sampled_from([1.0, 1.2, 3.0, 10.0]),
    'L0': st.sampled_from([0.05, 0.3, 1.0, 2.0]),
    'mom': st.sampled_from(['nesterov', 'linear', 'genlinear', 'default']),
    'bt': st.sampled_from(['none', 'none', 'std', 'robust']), 'mono': st.booleans(),
    'W': st.sampled_from(['none', 'vec', 'full', 'zeros']),
    'x0': st.sampled_from(['none', 'rand'])}),
    quick=300, shards=8, budget=15)
def pgm(case, t):
    p, cls = case['p'], case['cls']
    D, S, w, lmx = build(p)
    r, c, m = p['r'], p['c'], p['m']
    if case['bt'] != 'none':
        p['f32'] = False        # the acceptance test is limited by rounding
    if p['f32']:
        D, S = D.astype(np.float32), S.astype(np.float32)
    D64, S64 = D.astype(float), S.astype(float)
    wf = np.broadcast_to(np.asarray(w, dtype=float), (c, m))
    lmbda = p['lam'] * lmx
    nn = p['nn']
    rs = rng(p['seed'], 9)
    W = None
    Wf = np.ones((r, m))
    if cls == 'WeightedBPDN' and case['W'] != 'none':
        W = {'vec': 0.2 + rs.rand(r), 'full': 0.2 + rs.rand(r, m),
             'zeros': (rs.rand(r, m) < 0.7) * 1.5}[case['W']]
        Wf = np.broadcast_to(W.reshape(r, 1) if W.ndim == 1 else W, (r, m)).copy()
    lip = max(np.linalg.norm(np.sqrt(Wf[:, k:k + 1]) * D64, 2)**2 for k in range(m))
    lip = max(lip, 1e-3)
    d = {'Verbose': False, 'MaxMainIter': 300, 'RelStopTol': 1e-6, 'NonNegCoef': nn, 'L1Weight': w,
         'Monotone': case['mono']}
    if case['bt'] == 'none':
        d['L'] = float(case['L'] * lip * 1.001)
    else:
        d['L'] = float(case['L0'] * lip)
        d['Backtrack'] = BacktrackStandard() if case['bt'] == 'std' else BacktrackRobust()
    if case['mom'] != 'default':
        d['Momentum'] = {'nesterov': MomentumNesterov, 'linear': MomentumLinear,
                         'genlinear': MomentumGenLinear}[case['mom']]()
    if case['x0'] == 'rand':
        d['X0'] = rs.randn(c, m).astype(S.dtype)
    K = getattr(pbpdn, cls)

    def mk(d):
        opt = K.Options(d)
        return K(D, S, lmbda, W, opt) if cls == 'WeightedBPDN' else K(D, S, lmbda, opt)
    F0 = 0.5 * np.sum(Wf * S64**2)
    # columns have their own weighting: reference solves column by column
    Fref = 0.0
    for k in range(m):
        q = np.sqrt(Wf[:, k:k + 1])
        f, _ = ref.solve(c, 1, [(None, 0.0, (ref.L1NN if nn else ref.L1)(lmbda * wf[:, k:k + 1]))],
                         [(q * D64, q * S64[:, k:k + 1], 1.0)])
        Fref += f

    def ev(b, X):
        X = np.asarray(X, dtype=float)
        t.check(X.shape == (c, m), '%s: shape %s', cls, X.shape)
        if nn:
            t.check(X.min() >= 0, '%s: negative coefficient with NonNegCoef', cls)
        return 0.5 * np.sum(Wf * (D64.dot(X) - S64)**2) + lmbda * np.sum(wf * np.abs(X)), True
    b, X = converge(t, mk(d), [lambda: mk(dict(d, Momentum=MomentumNesterov(), L=float(1.001 * lip)))], ev, Fref, F0,
                    'pgm.' + cls)
    t.check(np.asarray(X).dtype == S.dtype, '%s: dtype %s', cls, np.asarray(X).dtype)
    t.close(b.reconstruct(), D64.dot(np.asarray(X, dtype=float)), rtol=1e-4 if p['f32'] else 1e-9,
            atol=1e-5 if p['f32'] else 1e-9, msg='reconstruct')
    Z = rs.randn(c, m)
    t.close(b.reconstruct(Z), D64.dot(Z), rtol=1e-4 if p['f32'] else 1e-9, msg='reconstruct(X)')
    t.label(cls)
    t.label('bt_' + case['bt'])
    t.nontrivial(0 < Fref < 0.99 * F0)


@CHECK.sub(st.fixed_dictionaries({'p': problem, 'which': st.sampled_from(['admm', 'pgm'])}), quick=60, shards=2)
def default_lambda(case, t):
    """lmbda=None means a tenth of the largest value giving a zero solution;
    the zero-solution threshold itself is respected."""
    p = case['p']
    D, S, w, lmx = build(p)
    if np.abs(D.T.dot(S)).max() < 1e-3:
        t.skip('no correlation')
    mod = abpdn if case['which'] == 'admm' else pbpdn
    L = 1.01 * np.linalg.norm(D, 2)**2
    base = {'Verbose': False, 'MaxMainIter': 400, 'RelStopTol': 1e-7}
    if case['which'] == 'pgm':
        base['L'] = float(L)
    X1 = mod.BPDN(D, S, None, mod.BPDN.Options(base)).solve()
    X2 = mod.BPDN(D, S, 0.1 * np.abs(D.T.dot(S)).max(), mod.BPDN.Options(base)).solve()
    t.close(X1, X2, rtol=1e-9, msg='lmbda=None')
    X3 = mod.BPDN(D, S, 1.1 * np.abs(D.T.dot(S)).max(), mod.BPDN.Options(base)).solve()
    t.check(np.abs(X3).max() <= 1e-5, 'lmbda above the threshold: non-zero solution %g', np.abs(X3).max())
    t.check(np.abs(X2).max() > 0, 'lmbda at a tenth of the threshold: zero solution')
    t.nontrivial(True)
