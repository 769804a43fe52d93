"""P12: proximal gradient iterations follow the documented step rules."""
import io
import contextlib
import numpy as np
from vlib.core import Check, st, seeds, rng
from vlib import dupd, solvers, dsz
from sporco.pgm import pgm, ppp
from sporco.pgm import bpdn as pbpdn
from sporco.pgm.momentum import MomentumNesterov, MomentumLinear, MomentumGenLinear, MomentumBase
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust
from sporco.pgm.stepsize import StepSizePolicyCauchy, StepSizePolicyBB, StepSizePolicyBase
import sporco.fft

sporco.fft.pyfftw_threads = 1

CHECK = Check('P12', rule='more than one iteration was taken and the iterate moved in the first two',
              assumptions=['each iteration is compared, from the state the code itself had reached, with one reference '
                           'step x = prox(y - grad f(y)/L) and the documented momentum, monotone, backtracking and '
                           'step-size rules, all evaluated in the spatial domain with dense operators',
                           'a step-size, monotone or backtracking decision that is closer to a tie than rounding '
                           'accepts either outcome', 'the step-size policies are applied from the third iteration on '
                           '(as the code does); the Barzilai-Borwein differences are those of the iterates and of '
                           'the gradients at the extrapolated points'])

TOYS = ['toy', 'toy', 'dft', 'ppp']
REAL = ['bpdn', 'wbpdn', 'cbpdn', 'cbpdnmask', 'pgm.cmod', 'pgm.wcmod', 'pgm', 'pgm.md']


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


class CustomMomentum(MomentumBase):
    def update(self, k):
        return 1.0 + 0.3 * np.sqrt(k)


class CustomStep(StepSizePolicyBase):
    def update(self, solverobj, grad=None):
        return solverobj.L * 1.05


# -- problems --------------------------------------------------------------------

class Toy(object):
    """f(x) = sum phi(P x - q), phi quadratic or log-cosh; g: l1, non-negative,
    box or none."""

    def __init__(self, c):
        rs = rng(c['seed'], 61)
        n, k, m = c['n'], c['k'], c['m']
        self.c = c
        self.P, self.q = rs.randn(m, n), 2 * rs.randn(m, k)
        self.lam = c['lam']
        self.shape = (n, k)
        self.smooth = c['smooth']
        self.gk = c['g']
        self.lip = max(np.linalg.norm(self.P, 2)**2, 1e-3)
        self.x0 = rs.randn(n, k)

    def f(self, x):
        r = self.P @ x - self.q
        return float(np.sum(np.logaddexp(r, -r) - np.log(2))) if self.smooth else float(0.5 * np.sum(r**2))

    def grad(self, x):
        r = self.P @ x - self.q
        return self.P.T @ (np.tanh(r) if self.smooth else r)

    def hess(self, x, v):
        d = self.P @ v
        if self.smooth:
            d = d / np.cosh(self.P @ x - self.q)**2
        return self.P.T @ d

    def g(self, x):
        return self.lam * float(np.sum(np.abs(x))) if self.gk == 'l1' else 0.0

    def prox(self, v, L):
        if self.gk == 'l1':
            return soft(v, self.lam / L)
        if self.gk == 'nn':
            return np.maximum(v, 0)
        if self.gk == 'box':
            return np.clip(v, -0.5, 0.5)
        return v.copy()

    def F(self, x):
        return self.f(x) + self.g(x)

    def inner(self, a, b):
        return float(np.sum(a * b))


class UToy(pgm.PGM):
    itstat_fields_objfn = ('ObjFun', 'FVal', 'GVal')

    def __init__(self, p, dtype, opt):
        self.p = p
        super().__init__(p.shape, dtype, opt)
        self.Y = self.X.copy()
        self.Yprv = self.Y + 1000.0
        self.objfn = None

    def grad_f(self, V=None):
        return self.p.grad(self.Y if V is None else V).astype(self.dtype)

    def prox_g(self, V):
        return self.p.prox(V, self.L).astype(self.dtype)

    def hessian_f(self, V):
        return self.p.hess(self.Y, V).astype(self.dtype)

    def obfn_f(self, X=None):
        return self.p.f(self.X if X is None else X)

    def obfn_g(self, X=None):
        return self.p.g(self.X if X is None else X)


class Conv(object):
    """f(x) = 0.5 ||sum_m d_m * x_m - s||^2 (weighted by w)."""

    def __init__(self, c):
        rs = rng(c['seed'], 62)
        self.c = c
        self.Nv = tuple(c['Nv'])
        self.M = c['k']
        self.shape = self.Nv + (self.M,)
        self.n = len(self.Nv)
        self.d = rs.randn(*self.shape) * (rs.rand(*self.shape) < 0.5)
        self.s = 2 * rs.randn(*self.Nv)
        self.w = np.ones(self.Nv) if not c['smooth'] else rs.rand(*self.Nv) * (rs.rand(*self.Nv) < 0.7)
        self.lam = c['lam']
        self.gk = c['g']
        N = int(np.prod(self.Nv))
        A = np.zeros((N, self.M * N))
        idx = np.arange(N).reshape(self.Nv)
        for m in range(self.M):
            for p in np.ndindex(*self.Nv):
                if self.d[p + (m,)] != 0:
                    A[np.arange(N), m + self.M * np.roll(idx, p, axis=tuple(range(self.n))).ravel()] += self.d[p + (m,)]
        self.A = A
        self.lip = max(np.linalg.norm(self.w.ravel()[:, None] * A, 2)**2, 1e-3)
        self.x0 = rs.randn(*self.shape)

    def res(self, x):
        return self.w.ravel() * (self.A @ np.ravel(x) - self.s.ravel())

    def f(self, x):
        return float(0.5 * np.sum(self.res(x)**2))

    def grad(self, x):
        return (self.A.T @ (self.w.ravel() * self.res(x))).reshape(self.shape)

    def hess(self, x, v):
        return (self.A.T @ (self.w.ravel()**2 * (self.A @ np.ravel(v)))).reshape(self.shape)

    g, prox, F, inner = Toy.g, Toy.prox, Toy.F, Toy.inner


class UConv(pgm.PGMDFT):
    def __init__(self, p, dtype, opt):
        self.p = p
        ax = tuple(range(p.n))
        super().__init__(p.shape, p.Nv, ax, dtype, opt)
        self.Xf = sporco.fft.rfftn(self.X, None, ax)
        self.Yf = self.Xf.copy()
        self.Yfprv = self.Yf.copy() + 1e5
        self.Vf = np.zeros(self.Xf.shape, dtype=self.Xf.dtype)
        self.objfn = None

    def _sp(self, Vf):
        return np.fft.irfftn(Vf, self.p.Nv, tuple(range(self.p.n)))

    def _fr(self, v):
        return np.fft.rfftn(v, None, tuple(range(self.p.n))).astype(self.Xf.dtype)

    def grad_f(self, Vf=None):
        return self._fr(self.p.grad(self._sp(self.Yf if Vf is None else Vf)))

    def hessian_f(self, V):
        return self._fr(self.p.hess(None, self._sp(V)))

    def prox_g(self, V):
        return self.p.prox(V, self.L).astype(self.dtype)

    def obfn_f(self, Xf=None):
        # DFT scaling, as in the classes of the package
        return self.p.f(self._sp(self.Xf if Xf is None else Xf)) * np.prod(self.p.Nv)

    def eval_objfn(self):
        f, g = self.p.f(self.X), self.p.g(self.X)
        return f + g, f, g

    def rsdl(self):
        return np.linalg.norm(self.X - self._sp(self.Yfprv))


class Dense(object):
    """pgm.bpdn classes."""

    def __init__(self, c, wtd):
        rs = rng(c['seed'], 63)
        self.D, self.S = rs.randn(c['m'], c['n']), 2 * rs.randn(c['m'], c['k'])
        self.W = (rs.rand(c['m'], c['k']) * 2 if wtd else np.ones((c['m'], c['k'])))
        self.wtd = wtd
        self.lmbda = 0.1 + c['lam']
        self.wl1 = 0.2 + rs.rand(c['n'], c['k']) if c['smooth'] else 1.0
        self.nn = c['g'] == 'nn'
        self.shape = (c['n'], c['k'])
        self.lip = max(np.linalg.norm(self.D, 2)**2 * self.W.max(), 1e-3)
        self.x0 = rs.randn(*self.shape)

    def f(self, x):
        return float(0.5 * np.sum(self.W * (self.D @ x - self.S)**2))

    def grad(self, x):
        return self.D.T @ (self.W * (self.D @ x - self.S))

    def hess(self, x, v):
        return self.D.T @ (self.W * (self.D @ v))

    def g(self, x):
        return float(self.lmbda * np.sum(np.abs(self.wl1 * x)))

    def prox(self, v, L):
        u = soft(v, self.lmbda * self.wl1 / L)
        return np.maximum(u, 0) if self.nn else u

    F, inner = Toy.F, Toy.inner

    def make(self, d):
        d.update(NonNegCoef=self.nn, L1Weight=self.wl1)
        if self.wtd:
            return pbpdn.WeightedBPDN(self.D, self.S, self.lmbda, self.W, pbpdn.WeightedBPDN.Options(d))
        return pbpdn.BPDN(self.D, self.S, self.lmbda, pbpdn.BPDN.Options(d))


class Csc(object):
    """pgm.cbpdn classes."""

    def __init__(self, c, masked):
        cc = dict(c['csc'])
        cc['kind'] = 'pgm.ConvBPDNMask' if masked else 'pgm.ConvBPDN'
        self.m = m = solvers.Model(cc)
        self.shape = m.shpX
        self.A, self.s = m.bigmat(), m.packS()
        self.w2 = m.packS(m.Wi)**2
        self.lip = max(m.lipA * max(self.w2.max(), 1e-9), 1e-3)
        self.x0 = rng(cc['seed'], 64).randn(*self.shape)

    def f(self, x):
        return self.m.dfid(x)

    def grad(self, x):
        return self.m.unpack(self.A.T @ (self.w2 * (self.A @ self.m.pack(x) - self.s)))

    def hess(self, x, v):
        return self.m.unpack(self.A.T @ (self.w2 * (self.A @ self.m.pack(v))))

    def g(self, x):
        return self.m.terms(x)[1]

    def prox(self, v, L):
        u = soft(v, self.m.lmbda * self.m.wf / L)
        if self.m.nn:
            u = np.maximum(u, 0)
        return np.where(self.m.zmask, 0, u)

    F, inner = Toy.F, Toy.inner

    def make(self, d):
        return self.m.make(opts=d)


class Dup(object):
    """pgm.cmod and pgm.ccmod classes."""

    def __init__(self, c, kind):
        cc = dict(c['dic'][kind])
        cc['kind'] = kind
        cc['cplx'] = False
        cc['init'] = 'none'
        self.m = m = dupd.Model(cc)
        self.shape = m.shpD
        self.lip = m.lip()
        self.x0 = m.D0
        self.g0 = m.gradient(np.zeros(self.shape))
        self.amb = False

    def f(self, x):
        return self.m.dfid(x)

    def grad(self, x):
        return self.m.gradient(x)

    def hess(self, x, v):
        return self.m.gradient(v) - self.g0

    def g(self, x):
        return 0.0

    def prox(self, v, L):
        if self.m.dense:
            u = v - v.mean(axis=0) if self.m.zm else v
            u = np.maximum(u, 0) if self.m.nn else u
            nr = np.sqrt(np.sum(u**2, axis=0)).ravel()
        else:
            u = np.where(self.m.supp, v, 0)
            if self.m.zm:
                sh = self.m.Nv + (self.m.Cd, self.m.M)
                u = u.reshape(sh).copy()
                sp = self.m.supp.reshape(sh)
                for a in np.ndindex(self.m.Cd, self.m.M):
                    ix = (Ellipsis,) + a
                    w = u[ix]
                    w[sp[ix]] -= w[sp[ix]].mean()
                u = u.reshape(self.shape)
            nr = np.sqrt(np.sum(u**2, axis=tuple(range(self.m.n + 1)))).ravel()
        # normalisation of an atom that is zero up to rounding is arbitrary
        if np.any(nr < 1e-6 * max(np.abs(v).max(), 1e-300)):
            self.amb = True
        return self.m.proj(v)

    F, inner = Toy.F, Toy.inner

    def make(self, d):
        return self.m.make(opts=d)


def build(c):
    k = c['kind']
    if k == 'toy':
        return Toy(c)
    if k == 'ppp':
        p = Toy(c)
        p.g = lambda x: 0.0          # the prior has no functional
        return p
    if k == 'dft':
        return Conv(c)
    if k in ('bpdn', 'wbpdn'):
        return Dense(c, k == 'wbpdn')
    if k in ('cbpdn', 'cbpdnmask'):
        return Csc(c, k == 'cbpdnmask')
    return Dup(c, k)


def make(c, p, d, dt=np.float64, opt=None):
    k = c['kind']
    if k == 'toy':
        return UToy(p, dt, opt or pgm.PGM.Options(d))
    if k == 'dft':
        return UConv(p, dt, opt or pgm.PGMDFT.Options(d))
    if k == 'ppp':
        d = dict(d, DataType=dt)
        return ppp.PPP(p.shape, p.f, lambda x: p.grad(x).astype(dt), lambda v, L: p.prox(v, L).astype(dt),
                       opt or ppp.PPP.Options(d))
    return p.make(d)


@st.composite
def prob(draw, kinds):
    c = dict(kind=draw(st.sampled_from(kinds)), seed=draw(seeds()), n=draw(st.integers(1, 6)), k=draw(st.integers(1, 3)),
             m=draw(st.integers(1, 7)), lam=draw(st.sampled_from([0.0, 0.3, 1.0, 5.0])), smooth=draw(st.booleans()),
             g=draw(st.sampled_from(['l1', 'l1', 'nn', 'box', 'none'])),
             Nv=draw(st.sampled_from([[1], [2], [5], [6], [3, 4], [4, 3], [2, 1], [2, 2, 3]])))
    if c['kind'] in ('cbpdn', 'cbpdnmask'):
        c['csc'] = draw(solvers.case(['pgm.ConvBPDNMask' if c['kind'] == 'cbpdnmask' else 'pgm.ConvBPDN'],
                                     maxN=(6, 4, 2), maxf=(3, 2, 2), maxM=2, maxC=2, maxK=2))
    elif c['kind'] in dupd.ALL:
        c['dic'] = {c['kind']: draw(dupd.case([c['kind']], maxN=(6, 4, 3), maxM=2, maxC=2, maxK=2))}
    return c


OPTS = st.fixed_dictionaries({
    'L': st.sampled_from([0.05, 0.4, 1.02, 1.02, 3.0, 30.0]),
    'mom': st.sampled_from(['nesterov', 'nesterov', 'linear', 'linear3', 'gen', 'gen9', 'custom']),
    'bt': st.sampled_from(['none', 'none', 'std', 'std3', 'robust', 'robustb']),
    'step': st.sampled_from(['none', 'none', 'cauchy', 'bb', 'bb', 'custom']),
    'mono': st.sampled_from([False, False, True]), 'niter': st.sampled_from([1, 2, 4, 7, 12, 25]),
    'tol': st.sampled_from([0.0, 0.0, 1e-3, 0.3]), 'autostop': st.sampled_from([None, None, 0.01, 1.0, 20.0]),
    'cbstop': st.sampled_from([None, None, 0, 1, 4]), 'fast': st.sampled_from([False, False, False, True]),
    'x0': st.booleans(), 'f32': st.sampled_from([False, False, False, True]), 'verb': st.booleans()})


def options(o, lip, kind):
    d = {'Verbose': o['verb'], 'MaxMainIter': o['niter'], 'RelStopTol': o['tol'], 'L': float(o['L'] * lip),
         'FastSolve': o['fast'], 'Monotone': o['mono']}
    d['Momentum'] = {'nesterov': MomentumNesterov(), 'linear': MomentumLinear(), 'linear3': MomentumLinear(b=3.5),
                     'gen': MomentumGenLinear(), 'gen9': MomentumGenLinear(a=9.0, b=4.0),
                     'custom': CustomMomentum()}[o['mom']]
    if o['autostop'] is not None:
        d['AutoStop'] = {'Enabled': True, 'Tau0': o['autostop']}
    if kind != 'ppp':
        if o['step'] != 'none':
            d['StepSizePolicy'] = {'cauchy': StepSizePolicyCauchy(), 'bb': StepSizePolicyBB(),
                                   'custom': CustomStep()}[o['step']]
        if o['bt'] != 'none':
            d['Backtrack'] = {'std': BacktrackStandard(), 'std3': BacktrackStandard(gamma_u=3.0, maxiter=12),
                              'robust': BacktrackRobust(), 'robustb': BacktrackRobust(gamma_d=0.7, gamma_u=1.5)}[o['bt']]
    return d


def momt(o, t, k):
    m = o['mom']
    if m == 'nesterov':
        return 0.5 * (1 + np.sqrt(1 + 4 * t * t))
    if m.startswith('linear'):
        b = 3.5 if m == 'linear3' else 2.0
        return (k + b) / b
    if m.startswith('gen'):
        a, b = (9.0, 4.0) if m == 'gen9' else (50.0, 2.0)
        return (k + a) / b
    return 1.0 + 0.3 * np.sqrt(k)


def spatial_y(b, p):
    if hasattr(b, 'Yf'):
        return np.fft.irfftn(np.asarray(b.Yf), tuple(b.Nv), tuple(b.axisN))
    return np.array(b.Y, dtype=float)


def history(case, t):
    c, o = case['p'], case['o']
    kind = c['kind']
    real = kind not in ('toy', 'dft', 'ppp')
    p = build(c)
    dt = np.dtype('float32' if o['f32'] and not real else 'float64')
    tol = 5e-4 if dt == np.float32 else 1e-8
    ltl = 3e-5 if dt == np.float32 else 1e-6
    d = options(o, p.lip, kind)
    bt = o['bt'] if kind != 'ppp' else 'none'
    step = o['step'] if kind != 'ppp' and bt == 'none' else 'none'
    if o['x0']:
        d['X0'] = p.x0.astype(dt)
    hist = []

    def cb(b):
        hist.append(dict(k=b.k, X=np.array(b.X, dtype=float), Y=spatial_y(b, p), L=float(b.L), nst=len(b.itstat)))
        return o['cbstop'] is not None and b.k >= o['cbstop']
    d['Callback'] = cb
    b = make(c, p, d, dt)
    X = np.array(b.X, dtype=float)
    if o['x0']:
        t.close(X, d['X0'], 0, 0, 'initial X')
    Y = X.copy()
    t.close(spatial_y(b, p), Y, 10 * tol, msg='initial Y')
    L = float(b.L)
    t.close(L, float(o['L'] * p.lip), 1e-6, msg='initial L')
    with contextlib.redirect_stdout(io.StringIO()):
        ret = b.solve()
    its = b.getitstat()
    n = len(hist)
    t.eq([h['k'] for h in hist], list(range(n)), 'iteration indices at the callback')
    tm = 1.0
    Tk, Z = 0.0, X.copy()
    Xpp = gpp = None
    moved = 0
    Fp = p.F(X)
    F00 = p.F(np.zeros(p.shape))
    G00 = np.abs(p.grad(np.zeros(p.shape))).max()
    gd, gu, mxbt = {'none': (1, 1, 0), 'std': (1, 1.2, 50), 'std3': (1, 3.0, 12), 'robust': (0.9, 2.0, 50),
                    'robustb': (0.7, 1.5, 50)}[bt]
    for j, h in enumerate(hist):
        Xk, Yk, Lk = h['X'], h['Y'], h['L']
        if not np.isfinite(Xk).all() or np.abs(Xk).max() > 1e10 or not 1e-14 < Lk / p.lip < 1e14:
            # diverging run (no majorisation, no monotone option)
            t.skip('iterates out of range')
        st_ = None if o['fast'] else b.itstat[j]
        mono = o['mono'] and j > 0

        def trial(y, L_):
            """Prox point and accepted point (monotone)."""
            g = p.grad(y)
            z = p.prox(y - g / L_, L_)
            if mono:
                Fz = p.F(z)
                m = (1e-5 if dt == np.float32 else 1e-10) * (abs(Fz) + abs(Fp) + F00 + np.abs(g).sum() * np.abs(z).max())
                if abs(Fz - Fp) <= m:
                    return z, [z, X]
                return z, [X if Fz > Fp else z]
            return z, [z]

        def bound(x, y, L_):
            """(f(x) - Q_L(x, y), rounding level)"""
            dx = x - y
            fx, fy, lin, q = p.f(x), p.f(y), p.inner(p.grad(y), dx), 0.5 * L_ * p.inner(dx, dx)
            eps = 3e-5 if dt == np.float32 else 1e-11
            return fx - fy - lin - q, eps * (abs(fx) + abs(fy) + abs(lin) + q + F00 + 1.0)
        yb = Y                                    # point the step is taken from
        if bt == 'none':
            want = [L]
            if step == 'custom' and j > 1:
                want = [1.05 * L]
            elif step == 'cauchy' and j > 1:
                g = p.grad(Y)
                den = p.inner(g, g)
                want = [p.inner(g, p.hess(Y, g)) / den] if den > 0 else [L]
                if den < (1e-8 if dt == np.float64 else 1e-3) * p.lip**2 * 1e-6 + 1e-20:
                    want = [Lk]
            elif step == 'bb' and j > 1:
                g = p.grad(Y)
                dx, dg = X - Xpp, g - gpp
                den, num = p.inner(dx, dg), p.inner(dg, dg)
                rel = abs(den) / max(np.sqrt(p.inner(dx, dx) * num), 1e-300)
                small = max(np.abs(dx).max() / (np.abs(X).max() + 1e-300), 0)
                ltol = 1e-3 if dt == np.float32 else 1e-7
                if num == 0 or den == 0:
                    want = [L, Lk]
                elif rel < ltol or small < ltol or np.abs(dg).max() < ltol * (G00 + p.lip * np.abs(Y).max()):
                    want = [Lk]
                else:
                    want = [num / den] if num / den >= 0 else [L]
            lt = 2e-2 if dt == np.float32 else 1e-6
            t.check(any(abs(Lk - w) <= lt * abs(w) for w in want), 'iteration %d: L %.9g -> %.9g, expected %s (%s)',
                    j, L, Lk, want, step)
            z, acc = trial(Y, Lk)
        elif bt.startswith('std'):
            i = int(round(np.log(Lk / L) / np.log(gu)))
            t.close(Lk, L * gu**i, ltl, msg='iteration %d: L is not the previous value times a power of the factor' % j)
            t.check(0 <= i <= mxbt, 'iteration %d: L %.9g -> %.9g', j, L, Lk)
            exhausted = i == mxbt
            Lu = Lk / gu if exhausted else Lk
            if st_ is not None:
                t.check(st_.IterBTrack == (mxbt if exhausted else i + 1), 'iteration %d: %s backtracking steps reported, L '
                        'increased %d times', j, st_.IterBTrack, i)
            z, acc = trial(Y, Lu)
            if not exhausted:
                e, eps = bound(Xk, Y, Lu)
                t.check(e <= eps, 'iteration %d: accepted step violates f(x) <= Q_L(x, y) by %.3g', j, e)
                t.label('bound')
            if i > 0:
                zr, ar = trial(Y, Lu / gu if not exhausted else Lu)
                ee = [bound(a, Y, Lu / gu if not exhausted else Lu) for a in ar]
                t.check(any(e > -eps for e, eps in ee), 'iteration %d: L was increased although the bound held (slack %s)',
                        j, ee)
                t.label('backtracked')
        else:
            i = int(round(np.log(Lk / (L * gd)) / np.log(gu)))
            t.close(Lk, L * gd * gu**i, ltl, msg='iteration %d: L' % j)
            t.check(0 <= i <= mxbt, 'iteration %d: L %.9g -> %.9g', j, L, Lk)
            if i == mxbt:
                t.skip('backtracking exhausted')
            if st_ is not None:
                t.eq(st_.IterBTrack, i + 1, 'iteration %d: reported backtracking steps' % j)

            def ypoint(L_):
                a = (1 + np.sqrt(1 + 4 * L_ * Tk)) / (2 * L_)
                return a, (Tk * X + a * Z) / (Tk + a)
            a, yb = ypoint(Lk)
            t.close(Yk, yb, tol, 10 * tol * (1 + np.abs(Z).max() + np.abs(X).max()), 'iteration %d: Y' % j)
            yb = Yk
            z, acc = trial(yb, Lk)
            e, eps = bound(Xk, yb, Lk)
            t.check(e <= eps, 'iteration %d: accepted step violates f(x) <= Q_L(x, y) by %.3g', j, e)
            t.label('bound')
            if i > 0:
                _, y2 = ypoint(Lk / gu)
                zr, ar = trial(y2, Lk / gu)
                ee = [bound(a_, y2, Lk / gu) for a_ in ar]
                t.check(any(e > -eps for e, eps in ee), 'iteration %d: L was increased although the bound held %s', j, ee)
                t.label('backtracked')
            Tk += a
            Z = Z + a * Lk * (Xk - yb)
        if getattr(p, 'amb', False):
            t.skip('atom that is zero up to rounding')
        g = p.grad(yb)
        sc = 1e-12 + np.abs(yb).max() + np.abs(g).max() / Lk + np.abs(X).max()
        errs = [np.abs(Xk - a_).max() for a_ in acc]
        t.check(min(errs) <= 10 * tol * sc, 'iteration %d: X differs from the documented step by %.3g (scale %.3g)', j,
                min(errs), sc)
        # extrapolation
        if not bt.startswith('robust'):
            tn = momt(o, tm, j)
            if mono:
                Yn = Xk + tm / tn * (z - Xk) + (tm - 1) / tn * (Xk - X)
            else:
                Yn = Xk + (tm - 1) / tn * (Xk - X)
            t.close(Yk, Yn, tol, 10 * tol * (sc + np.abs(z).max()), 'iteration %d: Y' % j)
            tm = tn
        # objective
        Fk = p.F(Xk)
        if st_ is not None:
            t.eq(h['nst'], j + 1, 'statistics recorded when the callback runs')
            rep = {'ppp': 'FVal', 'toy': 'ObjFun', 'dft': 'ObjFun', 'bpdn': 'ObjFun', 'wbpdn': 'ObjFun', 'cbpdn': 'ObjFun',
                   'cbpdnmask': 'ObjFun'}.get(kind, 'DFid')
            v = p.f(Xk) if kind == 'ppp' else Fk
            t.close(getattr(st_, rep), v, 100 * tol, 100 * tol * (1e-3 + p.F(np.zeros(p.shape))), 'iteration %d: %s' % (j, rep))
            t.close(st_.L, Lk, 1e-12, msg='reported L')
            if not real and not o['mono'] and not bt.startswith('robust'):
                r = np.linalg.norm(Xk - yb)
                t.close(st_.Rsdl, r, 10 * tol, 10 * tol * sc * np.sqrt(Xk.size), 'iteration %d: residual' % j)
            if bt != 'none' and st_.IterBTrack < mxbt:
                t.check(st_.F_Btrack <= st_.Q_Btrack, 'iteration %d: reported F %.9g > Q %.9g', j, st_.F_Btrack, st_.Q_Btrack)
            if o['mono'] and j > 0 and kind != 'ppp':
                t.check(getattr(st_, rep) <= getattr(b.itstat[j - 1], rep), 'iteration %d: objective increased with '
                        'Monotone', j)
        if o['mono'] and j > 0 and kind != 'ppp':
            m = (1e-4 if dt == np.float32 else 1e-9) * (abs(Fk) + abs(Fp) + F00)
            t.check(Fk <= Fp + m, 'iteration %d: objective rose from %.9g to %.9g with Monotone', j, Fp, Fk)
        # stopping
        thr = o['tol'] if o['autostop'] is None else o['autostop'] / (1.0 + j)
        rstop = st_ is not None and st_.Rsdl < thr
        cstop = o['cbstop'] is not None and j >= o['cbstop']
        if j < n - 1:
            t.check(not cstop, 'went on after the callback returned true')
            t.check(not rstop, 'went on after residual %.4g fell below %.4g at iteration %d', st_ and st_.Rsdl, thr, j)
        else:
            t.check(cstop or rstop or n == o['niter'], 'stopped after %d of %d iterations for no reason', n, o['niter'])
        if np.abs(Xk - X).max() > 1e-9:
            moved += 1
        Xpp, gpp = X, p.grad(yb)
        X, Y, L, Fp = Xk, Yk, Lk, Fk
    t.check(1 <= n <= o['niter'], '%d iterations, limit %d', n, o['niter'])
    t.close(np.asarray(ret, dtype=float), np.asarray(b.getmin(), dtype=float), 0, 0, 'returned value')
    if not kind.startswith('pgm'):
        t.close(np.asarray(ret, dtype=float), hist[-1]['X'], 0, 0, 'returned iterate')
    if not o['fast']:
        t.eq([int(s.Iter) for s in b.itstat], list(range(n)), 'Iter')
    else:
        t.check(not b.itstat, 'statistics recorded with FastSolve')
    t.label(kind)
    t.label(bt if bt != 'none' else step)
    t.label('mono', o['mono'])
    t.nontrivial(n > 1 and moved >= 2)


@CHECK.sub(st.fixed_dictionaries({'p': prob(TOYS), 'o': OPTS}), quick=14000, shards=5, budget=25)
def user(case, t):
    """User problems through the base classes, iteration by iteration."""
    history(case, t)


@CHECK.sub(st.fixed_dictionaries({'p': prob(REAL), 'o': OPTS}), quick=6400, shards=8, budget=25)
def package(case, t):
    """The solvers of the package, iteration by iteration."""
    history(case, t)


@CHECK.sub(st.fixed_dictionaries({'p': prob(TOYS[:3] + REAL), 'q': prob(TOYS[:3]), 'o': OPTS,
                                  'cuts': st.lists(st.integers(1, 5), min_size=1, max_size=4)}),
           quick=2000, shards=4, budget=20)
def shared(case, t):
    """Solvers sharing an options object (and its policy objects) behave as if
    each had its own."""
    o = dict(case['o'])
    o['cbstop'] = None
    o['fast'] = False
    outs = []
    pol = options(o, 1.0, 'toy')
    pol = {k: pol[k] for k in ('Momentum', 'StepSizePolicy', 'Backtrack') if k in pol}

    def run(p, c, b, n):
        b.opt['MaxMainIter'] = n
        with contextlib.redirect_stdout(io.StringIO()):
            b.solve()

    for mode in ('alone', 'shared'):
        res = []
        if mode == 'alone':
            for c in (case['p'], case['q']):
                p = build(c)
                d = options(o, p.lip, c['kind'])
                d['RelStopTol'] = 0.0
                d.pop('AutoStop', None)
                b = make(c, p, d)
                for n in case['cuts']:
                    run(p, c, b, n)
                res.append((np.array(b.X), [float(s.L) for s in b.itstat]))
        else:
            bs = []
            for c in (case['p'], case['q']):
                p = build(c)
                d = options(o, p.lip, c['kind'])
                d.update(pol)
                d['RelStopTol'] = 0.0
                d.pop('AutoStop', None)
                bs.append((p, c, make(c, p, d)))
            for n in case['cuts']:
                for p, c, b in bs:
                    run(p, c, b, n)
            res = [(np.array(b.X), [float(s.L) for s in b.itstat]) for p, c, b in bs]
        outs.append(res)
    for i in range(2):
        t.same(outs[1][i][0], outs[0][i][0], 'solver %d: result with shared policy objects' % i)
        t.same(outs[1][i][1], outs[0][i][1], 'solver %d: L with shared policy objects' % i)
    t.label(o['bt'] if o['bt'] != 'none' else o['step'])
    t.nontrivial(sum(case['cuts']) > 2 and np.any(outs[0][0][0] != 0))
