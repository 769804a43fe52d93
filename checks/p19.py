"""P19: image quality metrics equal their definitions."""
import numpy as np
from vlib.core import Check, st, seeds, rng
from sporco import metric

CHECK = Check('P19', scale=4, rule='the two arrays differ and the reference is not constant',
              assumptions=['finite values; SNR-type metrics compared only where numerator or denominator is non-zero',
                           'perceptual metrics: 2-D images at least 4x4 with positive maximum'])

INT = ['uint8', 'int8', 'uint16', 'int16', 'int32', 'int64']
FLT = ['float32', 'float64']
CPX = ['complex64', 'complex128']

shapes = st.lists(st.integers(1, 6), min_size=1, max_size=4)
pairs = st.fixed_dictionaries({
    'shape': shapes, 'seed': seeds(), 'da': st.sampled_from(INT + FLT * 3 + CPX),
    'db': st.sampled_from(['same', 'same'] + INT + FLT + CPX),
    'mode': st.sampled_from(['rand', 'rand', 'near', 'equal', 'extreme', 'constref', 'offset', 'onepix']),
    'scale': st.sampled_from([1.0, 1.0, 255.0, 1e-3, 1e4]), 'fort': st.booleans()})


def gen(rs, shape, dt, scale, extreme):
    dt = np.dtype(dt)
    if dt.kind in 'iu':
        ii = np.iinfo(dt)
        lo, hi = max(ii.min, -30000), min(ii.max, 60000)
        if extreme:
            return rs.choice([lo, hi], size=shape).astype(dt)
        return rs.randint(lo, hi + 1, size=shape).astype(dt)
    a = scale * rs.randn(*shape)
    if dt.kind == 'c':
        a = a + 1j * scale * rs.randn(*shape)
    return a.astype(dt)


def mk(case):
    rs = rng(case['seed'])
    da = case['da']
    db = da if case['db'] == 'same' else case['db']
    ex = case['mode'] == 'extreme'
    a = gen(rs, case['shape'], da, case['scale'], ex)
    b = gen(rs, case['shape'], db, case['scale'], ex)
    if case['mode'] == 'constref':
        a = np.full_like(a, a.ravel()[0])
    if case['mode'] == 'equal':
        b = a.copy()
    if case['mode'] == 'onepix':
        b = a.copy()
        b.ravel()[0] = gen(rs, (1,), da, case['scale'], False)[0]
    if case['mode'] == 'offset' and a.dtype.kind in 'fc':
        b = (a + a.dtype.type(case['scale'])).astype(a.dtype)
    if case['mode'] == 'near' and a.dtype.kind in 'fc':
        b = (a * a.dtype.type(1 + 1e-3)).astype(a.dtype)
    if case['fort']:
        a, b = np.asfortranarray(a), np.asfortranarray(b)
    return a, b


def up(a):
    return a.astype(np.complex128 if a.dtype.kind == 'c' else np.float64)


def var(a):
    return np.mean(np.abs(a - a.mean())**2)


def db(t, got, num, den, scale, msg):
    """10 log10(num/den)"""
    tiny = 1e-11 * scale
    if num <= tiny and den <= tiny:
        return                          # 0/0: undefined
    if den == 0:
        t.check(got == np.inf, '%s: got %r for zero error, expected inf', msg, got)
    elif num == 0:
        t.check(got < -80, '%s: got %r for zero signal, expected -inf', msg, got)
    elif num > tiny and den > tiny:
        t.check(abs(got - 10 * np.log10(num / den)) <= 2e-3, '%s: got %r, expected %r', msg, got,
                10 * np.log10(num / den))


@CHECK.sub(pairs, quick=1200, shards=4)
def error_metrics(case, t):
    a, b = mk(case)
    A, B = up(a), up(b)
    a0, b0 = a.copy(), b.copy()
    e1 = np.mean(np.abs(A - B))
    e2 = np.mean(np.abs(A - B)**2)
    t.close(metric.mae(a, b), e1, rtol=1e-6, atol=0, msg='mae')
    t.close(metric.mse(a, b), e2, rtol=1e-6, atol=0, msg='mse')
    t.close(metric.mse(a, b), metric.mse(b, a), rtol=1e-12, atol=0, msg='mse symmetry')
    # float32 arithmetic on large offsets: tolerance relative to energy
    scale = np.mean(np.abs(A)**2) + np.mean(np.abs(B)**2)
    if a.dtype in (np.float32, np.complex64):
        scale *= 1e5
    db(t, metric.snr(a, b), var(A), e2, scale, 'snr')
    db(t, metric.bsnr(a, b), var(A), var(B - A), scale, 'bsnr')
    if A.dtype.kind != 'c':
        db(t, metric.psnr(a, b), (A.max() - A.min())**2, e2, scale, 'psnr')
    for r in (1.0, 255, 2):
        db(t, metric.psnr(a, b, rng=r), float(r)**2, e2, 0.0, 'psnr rng=%s' % r)
    c = gen(rng(case['seed'], 3), case['shape'], case['da'], case['scale'], False)
    db(t, metric.isnr(a, b, c), e2, np.mean(np.abs(A - up(c))**2), scale, 'isnr')
    t.same(a, a0, 'first input modified')
    t.same(b, b0, 'second input modified')
    t.label(str(a.dtype))
    t.nontrivial(e2 > 0 and var(A) > 0)


@CHECK.sub(pairs, quick=400, shards=2)
def dtype_independence(case, t):
    """The same values held in another type give the same metric."""
    a, b = mk(case)
    if a.dtype.kind not in 'iu' or b.dtype.kind not in 'iu':
        t.skip('integer inputs only')
    for f in (metric.mae, metric.mse, metric.snr, metric.psnr, metric.bsnr):
        x, y = f(a, b), f(a.astype(float), b.astype(float))
        if np.isfinite(x) or np.isfinite(y):
            t.close(x, y, rtol=1e-9, msg=f.__name__)
    t.nontrivial(not np.array_equal(a, b))


images = st.fixed_dictionaries({
    'r': st.integers(4, 15), 'c': st.integers(4, 15), 'seed': seeds(),
    'dt': st.sampled_from(['uint8', 'uint8', 'int16', 'float32', 'float64', 'float64']),
    'mode': st.sampled_from(['rand', 'near', 'const', 'smooth']), 'k': st.sampled_from([2.0, 0.5, 4.0]),
    'rescale': st.booleans()})


def gm_ref(a, b):
    """Gradient magnitude similarity map from its definition (2x2 mean and
    decimation, Prewitt gradients, symmetric extension), by direct loops."""
    def prep(x):
        n, m = x.shape
        xp = np.pad(x, ((1, 0), (1, 0)), mode='symmetric')
        y = 0.25 * (xp[1:, 1:] + xp[:-1, 1:] + xp[1:, :-1] + xp[:-1, :-1])
        return y[::2, ::2]

    def grad(y):
        p = np.pad(y, 1, mode='symmetric')
        n, m = y.shape
        gx = np.zeros_like(y)
        gy = np.zeros_like(y)
        for i in range(n):
            for j in range(m):
                w = p[i:i + 3, j:j + 3]
                gx[i, j] = (w[:, 2].sum() - w[:, 0].sum()) / 3.0
                gy[i, j] = (w[2].sum() - w[0].sum()) / 3.0
        return np.sqrt(gx**2 + gy**2)
    g1, g2 = grad(prep(a)), grad(prep(b))
    return (2 * g1 * g2 + 170.0) / (g1**2 + g2**2 + 170.0)


def gauss_ref(e, sigma=0.8):
    rad = int(4.0 * sigma + 0.5)
    x = np.arange(-rad, rad + 1)
    k = np.exp(-0.5 * (x / sigma)**2)
    k /= k.sum()
    for ax in (0, 1):
        p = np.pad(e, [(rad, rad) if i == ax else (0, 0) for i in (0, 1)], mode='symmetric')
        out = np.zeros_like(e)
        for i, w in enumerate(k):
            out += w * np.take(p, range(i, i + e.shape[ax]), axis=ax)
        e = out
    return e


@CHECK.sub(images, quick=400, shards=4)
def perceptual(case, t):
    rs = rng(case['seed'])
    shp = (case['r'], case['c'])
    dt = np.dtype(case['dt'])

    def im():
        if case['mode'] == 'const':
            return np.full(shp, 1.0 + rs.randint(0, 254))
        if case['mode'] == 'smooth':
            return np.clip(np.add.outer(np.linspace(0, 120, shp[0]), np.linspace(1, 120, shp[1])) *
                           (0.5 + 0.5 * rs.rand()), 0, 255)
        return rs.randint(0, 256, size=shp).astype(float)
    a = im()
    b = np.clip(a + rs.randint(-2, 3, size=shp), 0, 255) if case['mode'] == 'near' else im()
    a.ravel()[rs.randint(a.size)] = 255 if rs.rand() < 0.5 else max(a.max(), 1.0)
    if dt.kind == 'f':
        a, b = a / 3.0, b / 3.0
    else:
        a, b = np.rint(a), np.rint(b)
    a, b = a.astype(dt), b.astype(dt)
    A, B = a.astype(float), b.astype(float)
    a0, b0 = a.copy(), b.copy()
    rsc = case['rescale']
    s = 255.0 / A.max() if rsc else 1.0
    p = metric.pamse(a, b, rescale=rsc)
    g, m = metric.gmsd(a, b, rescale=rsc, returnMap=True)
    tol = 1e-4
    mr = gm_ref(s * A, s * B)
    t.close(m, mr, rtol=tol, msg='gmsd quality map')
    t.close(g, np.std(mr), rtol=tol, atol=1e-5, msg='gmsd')
    t.close(metric.gmsd(a, b, rescale=rsc), g, rtol=1e-12, msg='gmsd without map')
    t.close(p, np.mean(gauss_ref(s * (A - B))**2), rtol=tol, atol=1e-9, msg='pamse')
    t.check(metric.pamse(a, a, rescale=rsc) == 0, 'pamse of identical images')
    t.check(abs(metric.gmsd(a, a, rescale=rsc)) <= 1e-6, 'gmsd of identical images')
    if B.max() > 0:
        t.close(metric.gmsd(a, b, rescale=False), metric.gmsd(b, a, rescale=False), rtol=1e-5, atol=1e-6,
                msg='gmsd symmetry')
        t.close(metric.pamse(a, b, rescale=False), metric.pamse(b, a, rescale=False), rtol=1e-9, msg='pamse symmetry')
    if dt.kind == 'f':
        k = case['k']
        t.close(metric.pamse(k * a, k * b), metric.pamse(a, b), rtol=tol, msg='pamse joint rescaling')
        t.close(metric.gmsd(k * a, k * b), metric.gmsd(a, b), rtol=tol, atol=1e-5, msg='gmsd joint rescaling')
    t.same(a, a0, 'first input modified')
    t.same(b, b0, 'second input modified')
    t.label(str(dt))
    t.nontrivial(not np.array_equal(a, b))
