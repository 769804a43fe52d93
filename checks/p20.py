"""P20: signal operators satisfy their definitions."""
import numpy as np
from vlib.core import Check, st, seeds, rng, arrspec, mkarr
from sporco import signal, fft

CHECK = Check('P20', scale=3, rule='the array is not constant along the axes involved (operators) or, for random masks and '
              'noise, the requested fraction is strictly between 0 and 1',
              assumptions=['statistical checks use samples of at least 3000 and a six-sigma band',
                           'local norm of local_contrast_normalise is checked away from the boundary only, its '
                           'treatment of the padded region not being documented'])

DT = ['float64', 'float64', 'float32', 'complex128', 'complex64', 'int64']


def tolfor(dt):
    return 1e-4 if np.dtype(dt).itemsize in (4,) or dt == 'complex64' else 1e-9


def gmat(n, zp):
    if zp:
        G = np.zeros((n + 1, n))
        for i in range(n):
            G[i, i] = 1
            G[i + 1, i] = -1
        return G
    G = np.zeros((n, n))
    for i in range(n - 1):
        G[i, i] = -1
        G[i, i + 1] = 1
    return G


def apply(G, x, axis):
    return np.moveaxis(np.tensordot(G, x, axes=(1, axis)), 0, axis)


@CHECK.sub(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 6), min_size=1, max_size=4), 'axis': st.integers(-4, 3),
    'zp': st.booleans(), 'dt': st.sampled_from(DT), 'a': arrspec(), 'neg': st.booleans()}), quick=800, shards=2)
def finite_differences(case, t):
    nd = len(case['shape'])
    if not -nd <= case['axis'] < nd:
        case['axis'] = case['axis'] % nd
    ax, zp = case['axis'], case['zp']
    x = mkarr(case['a'], case['shape'], case['dt'])
    G = gmat(case['shape'][ax], zp)
    x0 = x.copy()
    y = signal.grad(x, ax, zero_pad=zp)
    t.close(y, apply(G, x, ax % nd), rtol=tolfor(case['dt']), msg='grad')
    if y.size == 0:
        t.skip('empty')
    z = mkarr(case['a'], y.shape, case['dt'], salt=3)
    z0 = z.copy()
    w = signal.gradT(z, ax, zero_pad=zp)
    t.close(w, apply(G.T, z, ax % nd), rtol=tolfor(case['dt']), msg='gradT')
    t.close(np.vdot(y, z), np.vdot(x, w), rtol=1e-4 if tolfor(case['dt']) > 1e-6 else 1e-9, atol=1e-3 if
            tolfor(case['dt']) > 1e-6 else 1e-9, msg='adjoint')
    t.same(x, x0, 'input modified')
    t.same(z, z0, 'input modified')
    if case['dt'] != 'int64' and not zp:
        t.check(y.dtype == x.dtype and w.dtype == z.dtype, 'dtype changed: %s -> %s, %s', x.dtype, y.dtype, w.dtype)
    t.nontrivial(np.abs(y).max() > 0)
    t.label('zp', zp)


@CHECK.sub(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 6), min_size=1, max_size=5),
    'axes': st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True),
    'dt': st.sampled_from(['float64', 'float32', 'complex128', 'complex64', 'none']), 'a': arrspec()}),
    quick=600, shards=2)
def spectral_gradient(case, t):
    """Gf acts as the circular difference, GHGf as its Gram operator."""
    nd = len(case['shape'])
    axes = tuple(sorted(set(a % nd for a in case['axes'])))
    dt = None if case['dt'] == 'none' else np.dtype(case['dt'])
    x = mkarr(case['a'], case['shape'], dt or 'float32')
    axshp = tuple(case['shape'][a] for a in axes)
    Gf, GHGf = signal.gradient_filters(nd, axes, axshp, dtype=dt)
    cplx = dt is not None and dt.kind == 'c'
    F = (lambda v: np.fft.fftn(v, axes=axes)) if cplx else (lambda v: np.fft.rfftn(v, axes=axes))
    I = (lambda v: np.fft.ifftn(v, axes=axes)) if cplx else (lambda v: np.fft.irfftn(v, s=axshp, axes=axes))
    xf = F(x.astype(np.complex128 if cplx else np.float64))
    rt = 1e-5
    t.check(Gf.shape[-1] == len(axes), 'gradient_filters: last axis %d for %d axes', Gf.shape[-1], len(axes))
    gram = np.zeros(x.shape, dtype=np.complex128)
    for n, a in enumerate(axes):
        got = I(Gf[..., n] * xf)
        # circular difference, either orientation of the one-sided stencil
        d = x - np.roll(x, 1, axis=a)
        e1 = np.abs(got - d).max()
        e2 = np.abs(got + np.roll(d, -1, axis=a)).max()
        e3 = np.abs(got + d).max()
        e4 = np.abs(got - np.roll(d, -1, axis=a)).max()
        t.check(min(e1, e2, e3, e4) <= rt * (1 + np.abs(x).max()), 'filter %d is not a circular difference', n)
        gram += 2.0 * x - np.roll(x, 1, axis=a) - np.roll(x, -1, axis=a)
    g = I(GHGf * xf)
    t.close(g, gram if cplx else gram.real, rtol=1e-5, atol=1e-5, msg='GHGf')
    t.check(not np.iscomplexobj(GHGf), 'GHGf is complex')
    t.close(GHGf, np.sum(np.abs(Gf)**2, axis=-1), rtol=1e-5, msg='GHGf against Gf')
    t.nontrivial(np.abs(gram).max() > 1e-6)
    t.label('nd%d' % nd)


@CHECK.sub(st.fixed_dictionaries({
    'r': st.integers(1, 7), 'c': st.integers(1, 7), 'ex': st.lists(st.integers(1, 3), max_size=2),
    'npd': st.integers(0, 4), 'lm': st.sampled_from([0.0, 0.1, 1.0, 5.0, 50.0]),
    'dt': st.sampled_from(['float64', 'float64', 'float32', 'complex128', 'complex64']), 'a': arrspec()}),
    quick=300, shards=2)
def tikhonov(case, t):
    shp = [case['r'], case['c']] + case['ex']
    s = mkarr(case['a'], shp, case['dt'])
    s0 = s.copy()
    lp, hp = signal.tikhonov_filter(s, case['lm'], npd=case['npd'])
    rt = 1e-4 if case['dt'] in ('float32', 'complex64') else 1e-9
    t.check(lp.dtype == s.dtype and hp.dtype == s.dtype, 'dtype %s, %s', lp.dtype, hp.dtype)
    t.close(lp + hp, s, rtol=rt, msg='parts do not sum to the input')
    n = case['npd']
    sp = np.pad(s0.astype(np.complex128), ((n, n),) * 2 + ((0, 0),) * len(case['ex']), mode='symmetric')
    R, C = sp.shape[:2]
    A = np.eye(R * C)
    for ax, k in ((0, R), (1, C)):
        P = np.roll(np.arange(R * C).reshape(R, C), 1, axis=ax).ravel()
        G = np.eye(R * C)
        G[np.arange(R * C), P] -= 1
        A += case['lm'] * G.T @ G
    xr = np.linalg.solve(A, sp.reshape(R * C, -1)).reshape(sp.shape)[n:R - n, n:C - n]
    t.close(lp, xr if s.dtype.kind == 'c' else xr.real, rtol=rt, atol=rt, msg='low-pass part')
    t.same(s, s0, 'input modified')
    t.nontrivial(case['lm'] > 0 and np.ptp(np.abs(s)) > 0)


@CHECK.sub(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 6), min_size=2, max_size=2), 'k': st.sampled_from([None, 1, 2, 3, 4]),
    'dt': st.sampled_from(['float64', 'float32', 'uint8', 'int32']), 'seed': seeds()}), quick=200)
def gray(case, t):
    rs = rng(case['seed'])
    shp = tuple(case['shape']) + (3,) + (() if case['k'] is None else (case['k'],))
    dt = np.dtype(case['dt'])
    x = (rs.randint(0, 256, size=shp) if dt.kind in 'iu' else rs.rand(*shp)).astype(dt)
    x0 = x.copy()
    g = signal.rgb2gray(x)
    X = x.astype(float)
    r = 0.299 * X[:, :, 0] + 0.587 * X[:, :, 1] + 0.114 * X[:, :, 2]
    t.check(g.shape == r.shape, 'shape %s, expected %s', g.shape, r.shape)
    t.check(np.abs(g.astype(float) - r).max() <= (1.0 if dt.kind in 'iu' else 1e-5), 'grey value off by %g',
            np.abs(g.astype(float) - r).max())
    t.same(x, x0, 'input modified')
    t.nontrivial(True)


@CHECK.sub(st.fixed_dictionaries({
    'shape': st.sampled_from([(3000,), (60, 60), (20, 20, 9), (3, 1, 1200)]),
    'frc': st.sampled_from([0.0, 0.05, 0.3, 0.5, 0.75, 1.0]), 'seed': seeds(),
    'dt': st.sampled_from(['float64', 'float32', 'float16', 'uint8', 'bool', 'none']),
    'mn': st.sampled_from([0.0, -1.5, 7.0]), 'mx': st.sampled_from([1.0, 9.0])}), quick=300)
def random_fields(case, t):
    np.random.seed(case['seed'])
    shp, f = tuple(case['shape']), case['frc']
    n = int(np.prod(shp))
    dt = None if case['dt'] == 'none' else np.dtype(case['dt'])
    m = signal.rndmask(shp, f, dtype=dt)
    t.check(m.shape == shp, 'rndmask shape %s', m.shape)
    t.check(m.dtype == (dt or np.float64), 'rndmask dtype %s', m.dtype)
    v = m.astype(float)
    t.check(np.all((v == 0) | (v == 1)), 'rndmask value outside {0, 1}')
    band = 6 * np.sqrt(f * (1 - f) * n) + 1e-9
    t.check(abs((v == 0).sum() - f * n) <= band, 'rndmask: fraction %g zero, expected %g', (v == 0).mean(), f)
    s = 100 + rng(case['seed'], 2).rand(*shp)
    s0 = s.copy()
    y = signal.spnoise(s, f, smn=case['mn'], smx=case['mx'])
    t.same(s, s0, 'spnoise: input modified')
    t.check(y.shape == s.shape and y.dtype == s.dtype, 'spnoise shape/dtype')
    lo, hi, un = y == case['mn'], y == case['mx'], y == s
    t.check(np.all(lo | hi | un), 'spnoise: value neither noise nor signal')
    for q, p in ((lo, f / 2), (hi, f / 2), (un, 1 - f)):
        t.check(abs(q.sum() - p * n) <= 6 * np.sqrt(p * (1 - p) * n) + 1e-9, 'spnoise: fraction %g, expected %g',
                q.mean(), p)
    z = signal.complex_randn(*shp)
    t.check(z.shape == shp and np.iscomplexobj(z), 'complex_randn shape/type')
    for q in (z.real, z.imag):
        t.check(abs(q.mean()) <= 6 / np.sqrt(n) and abs(q.var() - 1) <= 6 * np.sqrt(2.0 / n), 'complex_randn moments')
    t.check(abs(np.mean(z.real * z.imag)) <= 6 / np.sqrt(n), 'complex_randn: parts correlated')
    t.nontrivial(0 < f < 1)


@CHECK.sub(st.fixed_dictionaries({
    'shape': st.lists(st.integers(1, 8), min_size=1, max_size=3), 'sd': st.sampled_from([0.3, 1.0, 2.5]),
    'asint': st.booleans()}), quick=150)
def gauss(case, t):
    shp = tuple(case['shape'])
    g = signal.gaussian(shp[0] if case['asint'] and len(shp) == 1 else shp, sd=case['sd'])
    t.check(g.shape == shp, 'shape %s', g.shape)
    t.close(g.sum(), 1.0, rtol=1e-12, msg='sum')
    # separable Gaussian sampled on [-3, 3]
    r = np.ones(shp)
    for k, n in enumerate(shp):
        x = np.linspace(-3.0, 3.0, n) if n > 1 else np.zeros(1)
        r = r * np.exp(-x**2 / (2 * case['sd']**2)).reshape((1,) * k + (n,) + (1,) * (len(shp) - k - 1))
    r /= r.sum()
    t.close(g, r, rtol=1e-10, msg='values')
    t.nontrivial(max(shp) > 1)


@CHECK.sub(st.fixed_dictionaries({
    'r': st.integers(3, 14), 'c': st.integers(3, 14), 'k': st.sampled_from([None, 1, 2]), 'n': st.integers(1, 4),
    'cc': st.sampled_from([None, 0.1, 0.5, 2.0]), 'seed': seeds(), 'f32': st.booleans()}), quick=250, shards=2)
def contrast(case, t):
    rs = rng(case['seed'])
    shp = (case['r'], case['c']) + (() if case['k'] is None else (case['k'],))
    s = rs.rand(*shp)
    if case['f32']:
        s = s.astype(np.float32)
    s0 = s.copy()
    n, c = case['n'], case['cc']
    out = signal.local_contrast_normalise(s, n=n, c=c)
    for o in out:
        t.check(o.shape == shp, 'shape %s, expected %s', o.shape, shp)
        t.finite(o, 'local_contrast_normalise')
    scn, smn, snrm = [o.astype(float) for o in out]
    rt = 1e-4 if case['f32'] else 1e-8
    t.close(snrm * scn + smn, s0.astype(float), rtol=rt, msg='reconstruction')
    x = np.linspace(-3, 3, 2 * n + 1)
    g = np.exp(-0.5 * np.add.outer(x**2, x**2))
    g /= g.sum()

    def local(v):
        p = np.pad(v, ((n, n),) * 2 + ((0, 0),) * (v.ndim - 2), mode='symmetric')
        o = np.zeros(v.shape)
        for i in range(2 * n + 1):
            for j in range(2 * n + 1):
                o += g[i, j] * p[i:i + v.shape[0], j:j + v.shape[1]]
        return o
    S = s0.astype(float)
    mn = local(S)
    t.close(smn, mn, rtol=rt, msg='local mean')
    if c is not None:
        t.check(snrm.min() >= c * (1 - rt), 'local norm below the limit')
        ln = np.sqrt(np.maximum(local((S - mn)**2), 0))
        if shp[0] > 2 * n and shp[1] > 2 * n:
            it = (slice(n, -n), slice(n, -n))
            t.close(snrm[it], np.maximum(c, ln)[it], rtol=rt, msg='local norm')
            t.label('norm')
    t.same(s, s0, 'input modified')
    t.nontrivial(True)
