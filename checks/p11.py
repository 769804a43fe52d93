"""P11: user-defined ADMM problems follow the documented algorithm."""
import io
import re
import contextlib
import numpy as np
from vlib.core import Check, st, seeds, rng
from vlib import solvers as sv
from vlib import tvm, dupd, densem
from checks import p13
from sporco.admm import admm, ppp

CHECK = Check('P11', rule='more than one iteration was taken and the iterates moved in each of the first two',
              assumptions=['each iteration is compared, from the state the code itself had reached, with one dense '
                           'reference iteration of min f(x)+g(y) s.t. Ax+By=c written from Boyd et al. sec. 3 and the '
                           'adaptive penalty rule; by induction the whole history is covered and no rounding drift '
                           'accumulates', 'a penalty test closer than 1e-6 (relative) to a tie accepts either outcome',
                           'problems: quadratic f, separable l1/quadratic g, up to 6x3 variables, up to 3 blocks'])

KINDS = ['adm', 'equal', 'twoblock', 'consensus', 'weighted', 'ppp', 'pppcns']


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def lsol(M, r):
    return np.linalg.lstsq(M, r, rcond=None)[0]


class Prob(object):
    """One problem in dense form; X, Y are matrices with k columns."""

    def __init__(self, c):
        rs = rng(c['seed'], 51)
        self.c = c
        kind = self.kind = c['kind']
        n, k = c['n'], c['k']
        self.n, self.k = n, k
        self.Nb = Nb = c['Nb'] if kind in ('consensus', 'weighted', 'pppcns') else 1
        self.alpha = (0.3 + 1.5 * rs.rand(Nb)) if kind in ('weighted', 'pppcns') else np.ones(Nb)
        m = c['m']
        self.P = [rs.randn(m, n) for _ in range(Nb)]
        self.q = [2 * rs.randn(m, k) for _ in range(Nb)]
        lam = c['lam']
        nx = n * Nb
        if kind == 'adm':
            ny = c['p']
            self.A = rs.randn(ny, n)
            self.B = -np.diag(rs.choice([-2.0, -0.7, 0.5, 1.0, 1.5], size=ny))
            self.cc = rs.randn(ny, k) * (1 if c['chas'] else 0)
            self.dq = np.zeros(ny)
            self.w = np.full(ny, lam)
        elif kind in ('equal', 'ppp'):
            ny = n
            self.A, self.B = np.eye(n), -np.eye(n)
            self.cc = np.zeros((n, k))
            self.dq, self.w = np.zeros(ny), np.full(ny, lam)
        elif kind == 'twoblock':
            p = c['p']
            self.p = p
            self.A0 = rs.randn(p, n) if c['a0'] else np.eye(n)
            self.p = p = self.A0.shape[0]
            self.A1 = rs.randn(n, n) if c['a1'] else np.eye(n)
            ny = p + n
            self.A, self.B = np.vstack((self.A0, self.A1)), -np.eye(ny)
            self.c0 = rs.randn(p, k) * (1 if c['chas'] else 0)
            self.c1 = rs.randn(n, k) * (1 if c['c1'] else 0)
            self.cc = np.vstack((self.c0, self.c1))
            self.dq = np.concatenate((np.ones(p), np.zeros(n)))
            self.w = np.concatenate((np.zeros(p), np.full(n, lam)))
            if not c['fzero']:
                self.P = [np.zeros((1, n))]
                self.q = [np.zeros((1, k))]
        else:
            ny = n
            sa = np.sqrt(self.alpha)
            self.A = np.kron(np.diag(sa), np.eye(n))
            self.B = -np.kron(sa[:, None], np.eye(n))
            self.cc = np.zeros((nx, k))
            self.dq, self.w = np.zeros(ny), np.full(ny, lam)
        self.ny = ny
        # f in terms of the stacked x
        self.H = np.zeros((nx, nx))
        self.h = np.zeros((nx, k))
        for i in range(Nb):
            s = slice(i * n, (i + 1) * n)
            self.H[s, s] = self.alpha[i] * self.P[i].T @ self.P[i]
            self.h[s] = self.alpha[i] * self.P[i].T @ self.q[i]
        self.scale = max(np.abs(self.h).max(), 1.0)

    # documented functionals
    def fi(self, x, i):
        return 0.5 * np.sum((self.P[i] @ x - self.q[i])**2)

    def gel(self, y, s=slice(None)):
        return 0.5 * np.sum(self.dq[s][:, None] * y**2) + np.sum(self.w[s][:, None] * np.abs(y))

    # the sub-problem solutions the user supplies
    def xsol(self, Y, U, rho):
        M = self.H + rho * self.A.T @ self.A
        r = self.h + rho * self.A.T @ (self.cc - self.B @ Y - U)
        return np.linalg.lstsq(M, r, rcond=None)[0]

    def ysol(self, AX, U, rho):
        b2 = np.sum(self.B**2, axis=0)[:, None]
        v = -self.B.T @ (AX - self.cc + U)              # = b2 * minimiser of the quadratic
        return soft(rho * v, self.w[:, None]) / (self.dq[:, None] + rho * b2)


# -- the user's classes ---------------------------------------------------------

class UADMM(admm.ADMM):
    def __init__(self, p, dtype, opt):
        self.p = p
        super().__init__(p.n * p.k, (p.ny, p.k), (p.A.shape[0], p.k), dtype, opt)

    def xstep(self):
        self.X = self.p.xsol(self.Y, self.U, self.rho).astype(self.dtype)

    def ystep(self):
        self.Y = self.p.ysol(self.AX, self.U, self.rho).astype(self.dtype)

    def obfn_f(self, X):
        return self.p.fi(X, 0)

    def obfn_g(self, Y):
        return self.p.gel(Y)

    def cnst_A(self, X):
        return (self.p.A @ X).astype(self.dtype)

    def cnst_AT(self, X):
        return (self.p.A.T @ X).astype(self.dtype)

    def cnst_B(self, Y):
        return (self.p.B @ Y).astype(self.dtype)

    def cnst_c(self):
        return self.p.cc.astype(self.dtype)

    def rhochange(self):
        self.nrc = getattr(self, 'nrc', 0) + 1


class UEqual(admm.ADMMEqual):
    def __init__(self, p, dtype, opt):
        self.p = p
        super().__init__((p.n, p.k), dtype, opt)

    def xstep(self):
        self.X = self.p.xsol(self.Y, self.U, self.rho).astype(self.dtype)

    def ystep(self):
        self.Y = self.p.ysol(self.AX, self.U, self.rho).astype(self.dtype)

    def obfn_f(self, X):
        return self.p.fi(X, 0)

    def obfn_g(self, Y):
        return self.p.gel(Y)

    def rhochange(self):
        self.nrc = getattr(self, 'nrc', 0) + 1


class UTwoBlock(admm.ADMMTwoBlockCnstrnt):
    def __init__(self, p, dtype, opt):
        self.p = p
        self.tr = p.c['axis'] == 1
        shp = (p.k, p.ny) if self.tr else (p.ny, p.k)
        super().__init__(p.n * p.k, shp, p.c['axis'], p.p, dtype, opt)

    def _t(self, a):
        return a.T if self.tr else a

    def xstep(self):
        self.X = self._t(self.p.xsol(self._t(self.Y), self._t(self.U), self.rho)).astype(self.dtype)

    def ystep(self):
        self.Y = self._t(self.p.ysol(self._t(self.AX), self._t(self.U), self.rho)).astype(self.dtype)

    def obfn_f(self, X):
        return self.p.fi(self._t(X), 0)

    def obfn_g0(self, Y0):
        return self.p.gel(self._t(Y0), slice(0, self.p.p))

    def obfn_g1(self, Y1):
        return self.p.gel(self._t(Y1), slice(self.p.p, None))

    def cnst_A0(self, X):
        return self._t(self.p.A0 @ self._t(X)).astype(self.dtype)

    def cnst_A0T(self, Y):
        return self._t(self.p.A0.T @ self._t(Y)).astype(self.dtype)

    def cnst_A1(self, X):
        return self._t(self.p.A1 @ self._t(X)).astype(self.dtype)

    def cnst_A1T(self, Y):
        return self._t(self.p.A1.T @ self._t(Y)).astype(self.dtype)

    def cnst_c0(self):
        return self._t(self.p.c0).astype(self.dtype) if self.p.c['chas'] else 0.0

    def cnst_c1(self):
        return self._t(self.p.c1).astype(self.dtype) if self.p.c['c1'] else 0.0

    def rhochange(self):
        self.nrc = getattr(self, 'nrc', 0) + 1


class CMix(object):
    def xistep(self, i):
        p = self.p
        M = p.P[i].T @ p.P[i] + self.rho * np.eye(p.n)
        self.X[..., i] = lsol(M, p.P[i].T @ p.q[i] + self.rho * (self.Y - self.U[..., i]))

    def prox_g(self, X, rho):
        return soft(X, self.p.w[:, None] / rho).astype(self.dtype)

    def obfn_fi(self, X, i):
        return self.p.fi(X, i)

    def obfn_g(self, Y):
        return self.p.gel(Y)

    def rhochange(self):
        self.nrc = getattr(self, 'nrc', 0) + 1


class UCons(CMix, admm.ADMMConsensus):
    def __init__(self, p, dtype, opt):
        self.p = p
        super().__init__(p.Nb, (p.n, p.k), dtype, opt)
        self.X = np.zeros(self.xshape, dtype=self.dtype)


class UWCons(CMix, admm.WeightedADMMConsensus):
    def __init__(self, p, dtype, opt):
        self.p = p
        super().__init__(p.Nb, p.alpha.astype(dtype), (p.n, p.k), dtype, opt)
        self.X = np.zeros(self.xshape, dtype=self.dtype)


def mkprob(p, dtype, opt):
    k = p.kind
    if k == 'adm':
        return UADMM(p, dtype, opt)
    if k == 'equal':
        return UEqual(p, dtype, opt)
    if k == 'twoblock':
        return UTwoBlock(p, dtype, opt)
    if k == 'consensus':
        return UCons(p, dtype, opt)
    if k == 'weighted':
        return UWCons(p, dtype, opt)

    def proxg(v, rho):
        return soft(v, p.w[:, None] / rho).astype(dtype)

    def proxf(i):
        def fn(v, rho):
            return lsol(p.P[i].T @ p.P[i] + rho * np.eye(p.n), p.P[i].T @ p.q[i] + rho * v).astype(dtype)
        return fn
    if k == 'ppp':
        return ppp.PPP((p.n, p.k), lambda x: p.fi(x, 0), proxf(0), proxg, opt)
    return ppp.PPPConsensus((p.n, p.k), [proxf(i) for i in range(p.Nb)], proxg, p.alpha, opt)


OPTC = {'adm': admm.ADMM.Options, 'equal': admm.ADMMEqual.Options, 'twoblock': admm.ADMMTwoBlockCnstrnt.Options,
        'consensus': admm.ADMMConsensus.Options, 'weighted': admm.WeightedADMMConsensus.Options,
        'ppp': ppp.PPP.Options, 'pppcns': ppp.PPPConsensus.Options}

PROB = st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'seed': seeds(), 'n': st.integers(1, 6), 'k': st.integers(1, 3),
    'm': st.integers(1, 7), 'p': st.integers(1, 5), 'Nb': st.integers(1, 3), 'lam': st.sampled_from([0.0, 0.3, 1.0, 20.0]),
    'chas': st.booleans(), 'c1': st.booleans(), 'a0': st.booleans(), 'a1': st.booleans(), 'fzero': st.booleans(),
    'axis': st.integers(0, 1)})

OPTS = st.fixed_dictionaries({
    'rho': st.sampled_from([None, 0.1, 1.0, 7.5, 100.0]), 'relax': st.sampled_from([1.0, 1.0, 0.6, 1.5, 1.8, 1.95]),
    'auto': st.booleans(), 'period': st.sampled_from([1, 1, 2, 3, 10]), 'scaling': st.sampled_from([1.3, 2.0, 10.0, 1000.0]),
    'ratio': st.sampled_from([1.2, 2.0, 10.0]), 'target': st.sampled_from([None, 0.3, 1.0, 4.0]),
    'autoscl': st.booleans(), 'std': st.booleans(), 'abs': st.sampled_from([0.0, 0.0, 1e-3, 0.1]),
    'rel': st.sampled_from([0.0, 1e-3, 0.05, 0.4]), 'niter': st.integers(1, 25), 'cbstop': st.sampled_from([None, None, 0, 1, 4]),
    'cbval': st.sampled_from(['true', 'one', 'npbool']), 'fast': st.sampled_from([False, False, False, True]),
    'verb': st.booleans(), 'hdr': st.booleans(), 'y0': st.booleans(), 'u0': st.booleans(),
    'f32': st.sampled_from([False, False, False, True]), 'aux': st.sampled_from([None, True, False]),
    'fX': st.sampled_from([None, True, False]), 'gY': st.sampled_from([None, True, False]),
    'retx': st.booleans(), 'retvar': st.sampled_from(['X', 'Y0', 'Y1'])})


def flat(p, b, what, a):
    """Code's array -> dense reference layout."""
    a = np.asarray(a, dtype=float)
    if p.kind == 'twoblock':
        return a.T if p.c['axis'] == 1 else a
    if p.kind in ('consensus', 'weighted', 'pppcns') and what in 'XU':
        v = np.concatenate([a[..., i] for i in range(p.Nb)], axis=0)
        if what == 'U':
            # scaled dual of the weighted constraint sqrt(alpha_i) (x_i - y) = 0
            v = v * np.repeat(np.sqrt(p.alpha), p.n)[:, None]
        return v
    return a


@CHECK.sub(st.fixed_dictionaries({'p': PROB, 'o': OPTS}), quick=16000, shards=8, budget=25)
def history(case, t):
    """Every iteration of a generated user problem against the reference."""
    p, o = Prob(case['p']), case['o']
    kind = p.kind
    cns = kind in ('consensus', 'weighted', 'pppcns')
    dt = np.dtype('float32' if o['f32'] else 'float64')
    tol = 2e-4 if o['f32'] else 1e-8
    rs = rng(case['p']['seed'], 52)
    d = {'MaxMainIter': o['niter'], 'RelStopTol': o['rel'], 'AbsStopTol': o['abs'], 'RelaxParam': o['relax'],
         'FastSolve': o['fast'], 'Verbose': o['verb'], 'StatusHeader': o['hdr'],
         'AutoRho': {'Enabled': o['auto'], 'Period': o['period'], 'Scaling': o['scaling'], 'RsdlRatio': o['ratio'],
                     'RsdlTarget': o['target'], 'AutoScaling': o['autoscl'], 'StdResiduals': o['std']}}
    if o['rho'] is not None:
        d['rho'] = o['rho']
    if kind in ('ppp', 'pppcns'):
        d['DataType'] = dt
    cols = p.k
    ysh = (cols, p.ny) if kind == 'twoblock' and p.c['axis'] else (p.ny, cols)
    if o['y0']:
        d['Y0'] = rs.randn(*ysh).astype(dt)
    if o['u0']:
        d['U0'] = rs.randn(*(ysh + ((p.Nb,) if cns else ()) if kind != 'adm' else (p.A.shape[0], cols))).astype(dt)
    fX, gY = True, True
    if kind in ('equal', 'ppp'):
        for nm, v in (('fEvalX', o['fX']), ('gEvalY', o['gY'])):
            if v is not None:
                d[nm] = v
        fX = True if o['fX'] is None else o['fX']
        gY = True if o['gY'] is None else o['gY']
        d['ReturnX'] = o['retx']
    elif kind == 'twoblock':
        if o['aux'] is not None:
            d['AuxVarObj'] = o['aux']
        d['ReturnVar'] = o['retvar']
    elif cns:
        fX, gY = False, True
        if o['aux'] is not None:
            d['AuxVarObj'] = o['aux']
            fX, gY = not o['aux'], bool(o['aux'])
    hist = []

    def cb(b):
        hist.append(dict(k=b.k, X=np.array(b.var_x(), dtype=float), Y=np.array(b.var_y(), dtype=float),
                         U=np.array(b.var_u(), dtype=float), rho=float(b.rho), nrc=getattr(b, 'nrc', 0),
                         nst=len(b.itstat)))
        stop = o['cbstop'] is not None and b.k >= o['cbstop']
        return {'true': True, 'one': 1, 'npbool': np.bool_(True)}[o['cbval']] if stop else (
            None if b.k % 2 else False)
    d['Callback'] = cb
    b = mkprob(p, dt, OPTC[kind](d))
    Y = flat(p, b, 'Y', b.var_y().copy())
    U = flat(p, b, 'U', b.var_u().copy())
    if o['y0']:
        t.close(b.var_y(), d['Y0'], 0, 0, 'initial Y')
    else:
        t.check(not np.any(b.var_y()), 'initial Y is not zero')
    if o['u0']:
        t.close(b.var_u(), d['U0'], 0, 0, 'initial U')
    else:
        t.check(not np.any(b.var_u()), 'initial U is not zero')
    rho = float(b.rho)
    t.close(rho, dt.type(1.0 if o['rho'] is None else o['rho']), 1e-6, msg='initial penalty')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ret = b.solve()
    its = b.getitstat()
    n = len(hist)
    t.eq([h['k'] for h in hist], list(range(n)), 'iteration indices at the callback')
    resid = o['auto'] or not o['fast']
    Xs = Ys = None
    moved = 0
    rpred = []
    nrc = 0
    rlx = float(dt.type(o['relax']))
    tau, mu = float(dt.type(o['scaling'])), float(dt.type(o['ratio']))
    xi = float(dt.type(1.0 if o['target'] is None else o['target']))
    for j, h in enumerate(hist):
        Xk, Yk, Uk = flat(p, b, 'X', h['X']), flat(p, b, 'Y', h['Y']), flat(p, b, 'U', h['U'])
        if not (np.isfinite(Xk).all() and 3e-6 < h["rho"] < 1e7):
            t.skip('penalty or iterates out of range')
        # updates in order
        X = p.xsol(Y, U, rho)
        sc = 1 + max(np.abs(X).max(), np.abs(Y).max(), np.abs(U).max())
        cond = 1 + (0 if kind == 'twoblock' or kind == 'adm' else 0)
        t.close(Xk, X, tol, tol * sc * cond * 10, 'iteration %d: X' % j)
        X = Xk
        AX = p.A @ X
        AXr = rlx * AX - (1 - rlx) * (p.B @ Y - p.cc)
        Yn = p.ysol(AXr, U, rho)
        sc = 1 + max(np.abs(AX).max(), np.abs(Y).max(), np.abs(U).max(), np.abs(p.cc).max())
        t.close(Yk, Yn, tol, tol * sc, 'iteration %d: Y' % j)
        Yn = Yk
        Un = U + AXr + p.B @ Yn - p.cc
        # residuals
        nrm = np.linalg.norm
        r, s = nrm(AX + p.B @ Yn - p.cc), rho * nrm(p.A.T @ (p.B @ (Yn - Y)))
        rn = max(nrm(AX), nrm(p.B @ Yn), nrm(p.cc))
        sn = rho * nrm(p.A.T @ Un)
        Nc, Nx = Un.size, X.size
        ra, sa = tol * (1 + rn), tol * rho * (1 + np.abs(p.A).max()**2) * sc * 5
        if o['std']:
            ep = np.sqrt(Nc) * o['abs'] + rn * o['rel']
            ed = np.sqrt(Nx) * o['abs'] + sn * o['rel']
        else:
            small = rn < 1e-6 * sc or sn < 1e-6 * rho * sc
            rn1, sn1 = (rn or 1.0), (sn or 1.0)
            r, s = r / rn1, s / sn1
            ra, sa = ra / rn1, sa / sn1
            ep = np.sqrt(Nc) * o['abs'] / rn1 + o['rel']
            ed = np.sqrt(Nx) * o['abs'] / sn1 + o['rel']
        reliable = o['std'] or not small
        if not o['fast']:
            t.eq(h['nst'], j + 1, 'statistics recorded when the callback runs')
            if reliable:
                t.close(its.PrimalRsdl[j], r, 10 * tol, 10 * ra, 'iteration %d: primal residual' % j)
                t.close(its.DualRsdl[j], s, 10 * tol, 10 * sa, 'iteration %d: dual residual' % j)
                t.close(its.EpsPrimal[j], ep, 100 * tol, tol, 'iteration %d: primal threshold' % j)
                t.close(its.EpsDual[j], ed, 100 * tol, tol, 'iteration %d: dual threshold' % j)
            t.close(its.Rho[j], rho, 1e-6, 1e-12, 'iteration %d: reported penalty' % j)
            r, s, ep, ed = its.PrimalRsdl[j], its.DualRsdl[j], its.EpsPrimal[j], its.EpsDual[j]
            # functional values
            if kind == 'ppp':
                t.close(its.FVal[j], p.fi(X, 0), 100 * tol, tol * sc**2, 'FVal')
            elif kind != 'pppcns':
                if kind == 'adm':
                    f, g = p.fi(X, 0), (p.gel(Yn),)
                elif kind == 'equal':
                    f, g = p.fi(X if fX else Yn, 0), (p.gel(Yn if gY else X),)
                elif kind == 'twoblock':
                    v = Yn if o['aux'] else AX - p.cc
                    f, g = p.fi(X, 0), (p.gel(v[:p.p], slice(0, p.p)), p.gel(v[p.p:], slice(p.p, None)))
                else:
                    xb = [X[i * p.n:(i + 1) * p.n] for i in range(p.Nb)]
                    f = sum(p.alpha[i] * p.fi(xb[i] if fX else Yn, i) for i in range(p.Nb))
                    mean = sum(p.alpha[i] * xb[i] for i in range(p.Nb)) / p.alpha.sum()
                    g = (p.gel(Yn if gY else mean),)
                fa = 100 * tol * (1 + abs(f) + sum(abs(x) for x in g) + sc**2)
                t.close(its.FVal[j], f, 100 * tol, fa, 'iteration %d: FVal' % j)
                if kind == 'twoblock':
                    t.close(its.G0Val[j], g[0], 100 * tol, fa, 'iteration %d: G0Val' % j)
                    t.close(its.G1Val[j], g[1], 100 * tol, fa, 'iteration %d: G1Val' % j)
                else:
                    t.close(its.GVal[j], g[0], 100 * tol, fa, 'iteration %d: GVal' % j)
                t.close(its.ObjFun[j], f + sum(g), 100 * tol, fa, 'iteration %d: ObjFun' % j)
        # penalty adaptation
        want = [rho]
        if o['auto'] and resid and j > 0 and (j + 1) % o['period'] == 0:
            if o['autoscl']:
                if r == 0 or s == 0:
                    mlt = tau
                else:
                    ratio = r / (s * xi)
                    mlt = min(np.sqrt(max(ratio, 1 / ratio)), tau)
            else:
                mlt = tau
            up, dn = r > xi * mu * s, s > mu * r / xi
            want = [rho * mlt if up else (rho / mlt if dn else rho)]
            near = tol * 100 if o['fast'] or o['f32'] else 1e-9
            if o['fast']:
                near = max(near, 1e-6)
                amb = not reliable or r < 1e3 * ra or s < 1e3 * sa
            else:
                amb = False
            if amb or abs(r - xi * mu * s) <= near * abs(r) or abs(s - mu * r / xi) <= near * abs(s):
                want = [rho * mlt, rho / mlt, rho]
                if amb:
                    want = [h['rho']]
        t.check(any(abs(h['rho'] - w) <= (1e-5 if o['f32'] or o['fast'] else 1e-9) * w for w in want),
                'iteration %d: penalty %.9g -> %.9g, expected %s (r %.4g, s %.4g)', j, rho, h['rho'], want, r, s)
        changed = abs(h['rho'] - rho) > 1e-12 * rho
        t.label('rho', changed)
        if kind in ('adm', 'equal', 'twoblock', 'consensus', 'weighted') and abs(o['scaling'] - 1) > 1e-3:
            if not o['autoscl'] or not o['f32']:
                t.check((h['nrc'] > nrc) == changed or not changed and h['nrc'] >= nrc and o['autoscl'],
                        'iteration %d: rhochange called %d times, penalty %schanged', j, h['nrc'] - nrc,
                        '' if changed else 'un')
        nrc = h['nrc']
        # unscaled dual variable is unaffected by the change of penalty
        t.close(h['rho'] * Uk, rho * Un, 10 * tol, 10 * tol * rho * sc, 'iteration %d: rho U' % j)
        if np.abs(Yn - Y).max() > 1e-9 or j == 0 and np.abs(X).max() > 1e-9:
            moved += 1
        # stopping
        last = j == n - 1
        cstop = o['cbstop'] is not None and j >= o['cbstop']
        rstop = None
        if resid:
            if not o['fast']:
                rstop = bool(r < ep and s < ed)
            elif reliable:
                near = 1e-4
                if (r < ep * (1 - near) - 100 * ra) and (s < ed * (1 - near) - 100 * sa):
                    rstop = True
                elif r > ep * (1 + near) + 100 * ra or s > ed * (1 + near) + 100 * sa:
                    rstop = False
                else:
                    rstop = None
        else:
            rstop = False
        if last:
            t.check(cstop or rstop is not False or rstop is None or n == o['niter'],
                    'stopped after %d iterations (limit %d) for no reason: r %.4g/%.4g s %.4g/%.4g', n, o['niter'],
                    r, ep, s, ed)
        else:
            t.check(not cstop, 'went on after the callback returned true at iteration %d', j)
            t.check(rstop is not True, 'went on after the thresholds were met at iteration %d: r %.4g/%.4g s %.4g/%.4g',
                    j, r, ep, s, ed)
        Y, U, rho = Yk, Uk, h['rho']
    t.check(1 <= n <= o['niter'], '%d iterations, limit %d', n, o['niter'])
    # result
    if kind in ('equal', 'ppp'):
        t.same(ret, b.var_x() if o['retx'] else b.var_y(), 'returned variable')
    elif kind == 'twoblock':
        Yf = flat(p, b, 'Y', b.var_y())
        w = {'X': flat(p, b, 'X', b.var_x()), 'Y0': Yf[:p.p], 'Y1': Yf[p.p:]}[o['retvar']]
        t.close(flat(p, b, 'Y', ret), w, 0, 0, 'returned variable')
        t.close(flat(p, b, 'Y', b.var_y0()), Yf[:p.p], 0, 0, 'var_y0')
        t.close(flat(p, b, 'Y', b.var_y1()), Yf[p.p:], 0, 0, 'var_y1')
    elif cns:
        t.same(ret, b.var_y(), 'returned variable')
    else:
        t.same(ret, b.var_x(), 'returned variable')
    # statistics
    if o['fast']:
        t.check(not b.itstat, 'statistics recorded with FastSolve')
    else:
        t.eq([int(x) for x in its.Iter], list(range(n)), 'Iter')
        t.check(all(y >= x for x, y in zip(its.Time, its.Time[1:])) and its.Time[0] >= 0, 'times decrease')
    # verbose output
    lines = [x for x in out.getvalue().split('\n') if x.strip()]
    if not o['verb']:
        t.check(not lines, 'output with Verbose disabled')
    else:
        nh = 2 if o['hdr'] else 0
        ne = 1 if o['hdr'] else 0
        t.eq(len(lines), nh + ne + (0 if o['fast'] else n), 'lines of verbose output')
        if not o['fast']:
            for j, ln in enumerate(lines[nh:nh + n]):
                v = ln.split()
                t.eq(int(v[0]), j, 'iteration number displayed')
                hd = type(b).hdrtxt()
                vals = [getattr(its, type(b).hdrval()[c])[j] for c in hd[1:]]
                if not o['auto']:
                    vals = vals[:-1]
                t.eq(len(v) - 1, len(vals), 'columns displayed')
                for a, w in zip(v[1:], vals):
                    if w is not None and np.isfinite(w):
                        t.close(float(a), float(w), 6e-3, 1e-300, 'displayed value')
    t.label(kind)
    t.label('auto', o['auto'])
    t.label('stopped', n < o['niter'])
    t.nontrivial(n > 1 and moved >= 2)


# -- the problem classes built on the base classes -----------------------------------

ADUP = ['cmod', 'ism', 'cg', 'cns', 'md.ism', 'md.cg', 'md.cns']
ADENSE = densem.ADMM
p13_nopg = dict(tol=0.0, mom='nesterov', bt='none', step='none', mono=False, L=1.05, f32=False, stop=None)
# problems whose first term is zero: the dual residual is rho A^T u itself
ALTDUAL = ('MinL1InL2Ball', 'ConvMinL1InL2Ball', 'ConvBPDNMaskDcpl', 'TVL1Denoise', 'TVL1Deconv', 'md.ism', 'md.cg')


@st.composite
def clscase(draw):
    which = draw(st.sampled_from(['conv', 'conv', 'conv', 'tvd', 'tvd', 'dup', 'dup', 'dense']))
    c = draw({'conv': sv.case(sv.ADMM_EQ + sv.ADMM_2B * 2 + sv.ADMM_TV + sv.PDCSC + sv.WRAP, maxN=(8, 4, 3)),
              'tvd': tvm.case(), 'dup': dupd.case(kinds=ADUP), 'dense': densem.case(kinds=ADENSE)}[which])
    return dict(which=which, c=c)


def constant(f):
    if isinstance(f, admm.ADMMTwoBlockCnstrnt):
        return f.block_cat(*(np.broadcast_to(np.asarray(c), np.shape(y)) for c, y in ((f.cnst_c0(), f.var_y0()),
                                                                                      (f.cnst_c1(), f.var_y1()))))
    return np.asarray(f.cnst_c())


@CHECK.sub(st.fixed_dictionaries({
    'w': clscase(), 'o': p13.RUN, 'rel': st.sampled_from([0.0, 1e-3, 0.05, 0.5]), 'abs': st.sampled_from([0.0, 0.0, 1e-3, 0.1]),
    'auto': st.booleans(), 'period': st.integers(1, 3), 'scaling': st.sampled_from([1.5, 2.0, 50.0]),
    'ratio': st.sampled_from([1.2, 3.0]), 'autoscl': st.booleans(), 'std': st.booleans()}), quick=1500, shards=8, budget=8)
def classes(case, t):
    """Residuals, thresholds, dual update, penalty adaptation and stopping of
    the problem classes, given their constraint operators."""
    o = dict(case['o'], tol=case['rel'], f32=False)
    m, mk, inner = p13.build(case['w'], o, dict(p13_nopg, n=o['n']))
    ar = {'Enabled': case['auto'], 'Period': case['period'], 'Scaling': case['scaling'], 'RsdlRatio': case['ratio'],
          'AutoScaling': case['autoscl'], 'StdResiduals': case['std'], 'RsdlTarget': 1.3}
    ex = {'AbsStopTol': case['abs'], 'RelStopTol': case['rel'], 'AutoRho': ar}
    alpha = float(o['relax'])
    b, s, caps, its, Y0 = p13.runs(t, lambda x: mk(dict(ex, **x)), dict(o, n=o['n']), inner)
    if not all(np.all(np.isfinite(c['X'])) for c in caps):
        t.skip('diverged')
    f = inner(mk(dict(ex, MaxMainIter=1)))
    name = m.kind + ('/' + m.inner if getattr(m, 'inner', None) else '')
    kind = getattr(m, 'inner', None) or m.kind
    cns = kind in ('cns', 'md.cns')
    nrm = np.linalg.norm
    if cns:
        A = lambda X: np.asarray(X)
        AT = A
        B = lambda Y: -np.repeat(np.asarray(Y)[..., np.newaxis], np.asarray(s.X).shape[-1], axis=-1)
        c = 0.0
    else:
        A, AT, B, c = (lambda X: np.asarray(f.cnst_A(X))), (lambda Y: np.asarray(f.cnst_AT(Y))), \
            (lambda Y: np.asarray(f.cnst_B(Y))), constant(f)
        rs = rng(case['w']['c']['seed'], 61)
        X1, U1 = rs.randn(*s.X.shape), rs.randn(*np.shape(s.U))
        if np.iscomplexobj(s.X):
            X1 = X1 + 1j * rs.randn(*s.X.shape)
        if np.iscomplexobj(s.U):
            U1 = U1 + 1j * rs.randn(*np.shape(s.U))
        a1, a2 = np.sum(np.conj(A(X1)) * U1).real, np.sum(np.conj(X1) * AT(U1)).real
        t.check(abs(a1 - a2) <= 1e-9 * nrm(A(X1)) * nrm(U1) + 1e-12, '%s: constraint operator and its adjoint disagree: '
                '%.12g, %.12g', name, a1, a2)
    Yp, Up = Y0, np.array(f.U, copy=True)
    Y1p, U1p = (np.array(f.Y1, copy=True), np.array(f.U1, copy=True)) if kind == 'md.cns' else (None, None)
    tol = 1e-7
    nc = nrm(c)
    calls = np.cumsum([0] + o['n'])
    rho0 = None
    for k, cp in enumerate(caps):
        rho = float(its.Rho[k])
        if not (1e-7 < rho < 1e9):
            return
        if rho0 is not None:
            t.check(abs(rho - rho0) <= 1e-12 * rho, '%s: penalty %.12g after iteration %d but %.12g in the next', name, rho0,
                    k - 1, rho)
        mult = cp['rho'] / rho
        X, Y = cp['X'], cp['Y']
        U = cp['U'] * mult
        AX, BY = A(X), B(Y)
        r = nrm(AX + BY - c)
        rn = max(nrm(AX), nrm(BY), nc)
        size = rn + nrm(Up)
        if kind == 'md.cns':
            R1 = cp['AX1nr'] - cp['Y1'] - np.asarray(s.S)
            r = np.hypot(r, nrm(R1))
            U1 = cp['U1'] * mult
            ax = tuple(s.cri.axisN)
            ATU = np.asarray(s.swapaxes(U)) + np.fft.irfftn(np.conj(s.Zf) * np.fft.rfftn(U1, axes=ax), s=s.cri.Nv, axes=ax)
            rn = max(np.hypot(nrm(AX), nrm(cp['AX1nr'])), np.hypot(nrm(Y), nrm(cp['Y1'])), nrm(s.S))
            sn = rho * np.hypot(nrm(U), nrm(U1))
            sd = rho * nrm(ATU)
            E1 = U1p + alpha * cp['AX1nr'] + (1 - alpha) * (Y1p + np.asarray(s.S)) - cp['Y1'] - np.asarray(s.S)
            t.close(U1, E1, 1e-8, 1e-9 * (size + nrm(E1)), msg='%s: iteration %d: dual variable of the mask constraint' % (name, k))
            Y1p, U1p = cp['Y1'], cp['U1']
        elif cns:
            sd, sn = rho * nrm(B(Y) - B(Yp)), rho * nrm(U)
        elif kind in ALTDUAL:
            sd, sn = rho * nrm(AT(U)), rho * nrm(U)
        else:
            sd, sn = rho * nrm(AT(B(Y) - B(Yp))), rho * nrm(AT(U))
        # dual update with over-relaxation
        AXr = alpha * AX - (1 - alpha) * (B(Yp) - c)
        t.close(U, Up + AXr + BY - c, 1e-8, 1e-9 * size, msg='%s: iteration %d: dual variable' % (name, k))
        Nx, Nc = X.size, np.size(U)
        if not case['std']:
            rd, sdd = rn or 1.0, sn or 1.0
            er, es = np.sqrt(Nc) * case['abs'] / rd + case['rel'], np.sqrt(Nx) * case['abs'] / sdd + case['rel']
        else:
            rd, sdd = 1.0, 1.0
            er, es = np.sqrt(Nc) * case['abs'] + rn * case['rel'], np.sqrt(Nx) * case['abs'] + sn * case['rel']
        rr, ss = float(its.PrimalRsdl[k]), float(its.DualRsdl[k])
        eps = 1e-9 * size / rd
        t.check(abs(rr - r / rd) <= tol * abs(rr) + eps, '%s: iteration %d: PrimalRsdl %.10g, residual of the iterates %.10g',
                name, k, rr, r / rd)
        ok = sn > 1e-6 * rho * size
        if ok or case['std']:
            t.check(abs(ss - sd / sdd) <= tol * abs(ss) + 1e-9 * rho * size * max(1.0, nrm(AX) / max(nrm(X), 1e-30)) / sdd,
                    '%s: iteration %d: DualRsdl %.10g, residual of the iterates %.10g', name, k, ss, sd / sdd)
        if kind != 'md.cns':
            t.check(abs(its.EpsPrimal[k] - er) <= tol * er + 1e-12, '%s: iteration %d: EpsPrimal %.10g, documented %.10g', name, k,
                    its.EpsPrimal[k], er)
            if ok:
                t.check(abs(its.EpsDual[k] - es) <= tol * es + 1e-12, '%s: iteration %d: EpsDual %.10g, documented %.10g', name, k,
                        its.EpsDual[k], es)
        # penalty adaptation
        want = [1.0]
        if case['auto'] and k != 0 and (k + 1) % case['period'] == 0:
            xi = 1.3
            mu, tau = case['ratio'], case['scaling']
            if case['autoscl']:
                q = tau if rr == 0 or ss == 0 else min(tau, np.sqrt(rr / (ss * xi) if rr > ss * xi else ss * xi / rr))
            else:
                q = tau
            up, dn = rr - xi * mu * ss, ss - mu / xi * rr
            want = [q if up > 0 else (1 / q if dn > 0 else 1.0)]
            if abs(up) <= 1e-6 * abs(rr) or abs(dn) <= 1e-6 * abs(ss):
                want += [1.0, q, 1 / q]
        t.check(min(abs(mult - v) / v for v in want) <= 1e-6, '%s: iteration %d: penalty changed by a factor of %.10g, documented '
                '%s (residuals %.6g, %.6g)', name, k, mult, want, rr, ss)
        # stopping
        stop = rr < float(its.EpsPrimal[k]) and ss < float(its.EpsDual[k])
        last = k + 1 == len(caps)
        if o['stop'] is None and len(o['n']) == 1:
            t.check(stop == (last and k + 1 < o['n'][0]) or (last and k + 1 == o['n'][0]), '%s: %d iterations with limit %d, thresholds '
                    'met at iteration %d: %s', name, len(caps), o['n'][0], k, stop)
        Yp, Up, rho0 = Y, cp['U'], cp['rho']
    t.label(name)
    t.label('auto', case['auto'])
    p13.moving(t, its)
