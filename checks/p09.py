"""P09: denoising and decomposition solvers reach the stated optimum."""
import numpy as np
from vlib.core import Check, st, rng
from vlib import tvm
from vlib.conv import converge

CHECK = Check('P09', rule='the regularisation weight is positive and the reference optimum is strictly below the '
              'objective of both trivial candidates (the data itself, zero)',
              assumptions=['optimality is judged from above against an independent dense SDMM solver (reference '
                           'error can only weaken the check)', 'tolerance 1e-3 relative; a run that is still moving '
                           'after 4500 iterations is repeated with other penalties before it counts',
                           'deconvolution kernels are real and well away from a zero frequency response',
                           'small arrays: up to 12 samples, 6x6, 4x4x4'])

OPT = st.fixed_dictionaries({
    'rho': st.sampled_from([None, None, 0.3, 1.0, 5.0]), 'relax': st.sampled_from([1.0, 1.5, 1.8]),
    'auto': st.sampled_from(['default', 'off', 'off']), 'gey': st.booleans(), 'chk': st.booleans(),
    'gs': st.sampled_from([1, 2, 2, 4]), 'y0': st.sampled_from(['none', 'none', 'none', 'rand'])})


def mkopts(m, o, rho=None, plain=False):
    d = {'MaxMainIter': 100, 'RelStopTol': 1e-6, 'RelaxParam': o['relax'], 'gEvalY': o['gey']}
    r = rho if rho is not None else o['rho']
    if r is not None:
        d['rho'] = float(r) * max(m.lmbda, 0.05)
    if o['auto'] == 'off' or plain:
        d['AutoRho'] = {'Enabled': False}
    d['LinSolveCheck'] = o['chk']
    d['MaxGSIter'] = 10 if plain else o['gs']
    if plain and 'Denoise' in m.kind:
        d['RelaxParam'] = 1.0       # the x step is inexact
    if o['y0'] == 'rand' and not plain:
        y = rng(m.c['seed'], 5).randn(*m.yshape())
        d['Y0'] = y.astype(m.dtype)
    oc = m.optcls()()
    return {k: v for k, v in d.items() if k in oc}


def body(case, t):
    c, o = case['c'], case['o']
    m = tvm.Model(c)
    Fref, Xr = m.reference()
    F0 = m.fzero()

    def ev(b, X):
        if m.kind == 'RobustPCA':
            X0, Y0 = [np.asarray(x) for x in X]
            t.check(X0.shape == m.shp and Y0.shape == m.shp, 'result shapes %s %s', X0.shape, Y0.shape)
            ok = np.abs(X0 + Y0 - m.S).max() <= 1e-3 * np.abs(m.S).max() + 1e-6
            return m.objective((X0, Y0)), ok
        X = np.asarray(X)
        t.check(X.shape == m.shp, '%s: result shape %s', m.kind, X.shape)
        t.check(X.dtype == m.dtype, '%s: result dtype %s for %s', m.kind, X.dtype, m.dtype)
        return m.objective(X), True

    def mk(rho):
        return lambda: m.make(mkopts(m, o, rho, True))
    b, X = converge(t, m.make(mkopts(m, o)), [mk(1.0), mk(10.0), mk(0.1), mk(0.01), mk(100.0)], ev, Fref,
                    max(F0, 1e-2 * m.dfid_of(m.S) if m.kind != 'RobustPCA' else 0.0, 1e-6), m.kind,
                    strict=o['auto'] == 'off' and 'Denoise' not in m.kind, fplan=((1000, 1e-8), (8000, 0.0)))
    t.label(m.kind)
    t.label('cplx', m.cplx)
    t.label('caxis', m.caxis is not None)
    t.label('nd%d' % len(m.shp))
    t.nontrivial(m.lmbda > 0 and Fref < 0.995 * F0)


@CHECK.sub(st.fixed_dictionaries({'c': tvm.case(tvm.TV), 'o': OPT}), quick=420, shards=8, budget=17)
def tv(case, t):
    body(case, t)


@CHECK.sub(st.fixed_dictionaries({'c': tvm.case(['SplineL1', 'RobustPCA']), 'o': OPT}), quick=240, shards=6, budget=10)
def other(case, t):
    body(case, t)
