"""P21: interpolation and robust regression."""
import itertools
import numpy as np
from vlib.core import Check, st, seeds, rng
from sporco import interp

CHECK = Check('P21', scale=4, rule='demosaic: non-constant mosaic; Lanczos: at least one non-integer point; regression: '
              'optimal deviation above zero',
              assumptions=['green samples of bilinear_demosaic may be interpolated from the horizontal pair, the '
                           'vertical pair or all four neighbours (the triangulation of the quincunx grid is not '
                           'unique)', 'samples outside the outermost red/blue rows and columns take the nearest one',
                           'regression: full column rank, up to 8 equations, 3 unknowns'])


@CHECK.sub(st.fixed_dictionaries({'r': st.integers(2, 8), 'c': st.integers(2, 8), 'odd': st.tuples(st.booleans(), st.booleans()), 'seed': seeds(),
                                  'kind': st.sampled_from(['rand', 'int', 'plane', 'impulse']),
                                  'dt': st.sampled_from(['float64', 'float32', 'uint8'])}), quick=250, shards=2)
def demosaic(case, t):
    rs = rng(case['seed'])
    R, C = 2 * case['r'] + bool(case['odd'][0]), 2 * case['c'] + bool(case['odd'][1])
    if case['kind'] == 'rand':
        img = rs.rand(R, C) * 100
    elif case['kind'] == 'int':
        img = rs.randint(0, 256, size=(R, C)).astype(float)
    elif case['kind'] == 'plane':
        img = np.add.outer(3.0 * np.arange(R), 5.0 * np.arange(C))
    else:
        img = np.zeros((R, C))
        img[rs.randint(R), rs.randint(C)] = 80.0
    img = img.astype(case['dt'])
    i0 = img.copy()
    d = interp.bilinear_demosaic(img)
    t.same(img, i0, 'input modified')
    t.check(d.shape == (R, C, 3), 'shape %s', d.shape)
    t.finite(d, 'demosaic')
    img = img.astype(float)
    tol = 1e-4 * max(img.max(), 1)

    def near(x, y, msg, *a):
        t.check(abs(x - y) <= tol, msg + ': got %g, expected %g' % (x, y), *a)
    for ch, o in ((0, 1), (2, 0)):
        rows = np.arange(o, R, 2)
        cols = np.arange(o, C, 2)
        sub = img[o::2, o::2]
        tmp = np.stack([np.interp(np.arange(R), rows, sub[:, j]) for j in range(len(cols))], axis=1)
        full = np.stack([np.interp(np.arange(C), cols, tmp[i]) for i in range(R)], axis=0)
        e = np.abs(d[:, :, ch] - full)
        k = np.unravel_index(np.argmax(e), e.shape)
        t.check(e.max() <= tol, 'channel %d at %s: got %g, expected %g', ch, k, d[k + (ch,)], full[k])
    g = d[:, :, 1]
    for i in range(R):
        for j in range(C):
            if (i + j) % 2 == 1:
                near(g[i, j], img[i, j], 'green sample (%d, %d) altered', i, j)
                continue
            h = [img[i, q] for q in (j - 1, j + 1) if 0 <= q < C]
            v = [img[q, j] for q in (i - 1, i + 1) if 0 <= q < R]
            cand = [np.mean(h + v)]
            if len(h) == 2:
                cand.append(np.mean(h))
            if len(v) == 2:
                cand.append(np.mean(v))
            t.check(min(abs(g[i, j] - x) for x in cand) <= tol,
                    'green at (%d, %d): got %g, candidates %s', i, j, g[i, j], cand)
    t.nontrivial(np.ptp(img) > 0)


def kern(x, a):
    x = np.asarray(x, dtype=float)
    out = np.zeros(x.shape)
    for k in np.ndindex(*x.shape):
        v = x[k]
        if -a < v < a:
            out[k] = 1.0 if v == 0 else a * np.sin(np.pi * v) * np.sin(np.pi * v / a) / (np.pi * v)**2
    return out


@CHECK.sub(st.fixed_dictionaries({'a': st.integers(1, 6), 'x': st.lists(st.floats(-8, 8), min_size=1, max_size=6),
                                  'ints': st.booleans()}), quick=300)
def lanczos_kernel(case, t):
    a = case['a']
    x = np.array(case['x'])
    x = np.where(np.abs(x) < 1e-6, 0.0, x)
    x = np.where(np.abs(x - np.rint(x)) < 1e-6, np.rint(x), x)
    if case['ints']:
        x = np.rint(x)
    y = interp.lanczos_kernel(x, a=a)
    t.close(y, kern(x, a), rtol=1e-9, atol=1e-12, msg='kernel')
    t.close(y, interp.lanczos_kernel(-x, a=a), rtol=1e-12, msg='even')
    z = interp.lanczos_kernel(np.arange(-a - 2, a + 3), a=a)
    t.close(z, (np.arange(-a - 2, a + 3) == 0).astype(float), rtol=1e-12, atol=1e-12, msg='pulse')
    t.close(interp.lanczos_kernel(float(x[0]), a=a), kern(x[:1], a)[0], rtol=1e-9, atol=1e-12, msg='scalar')
    t.nontrivial(np.any((np.abs(x) < a) & (x != np.rint(x))))


def points(N, inc):
    """N evenly spaced points, spacing 1/N with zero, 1/(N+1) without, centred
    with the surplus one on the positive side."""
    if inc:
        lo = -((N - 1) // 2)
        return np.array([k / N for k in range(lo, lo + N)])
    v = [k / (N + 1.0) for k in range(-(N // 2), N - N // 2 + 1) if k != 0]
    return np.array(v)


@CHECK.sub(st.fixed_dictionaries({
    'a': st.integers(1, 4), 'collapse': st.booleans(), 'asint': st.booleans(),
    'sz': st.lists(st.one_of(st.integers(1, 6), st.lists(st.sampled_from(
        [-1.0, -0.75, -0.5, -1 / 3., 0.0, 0.1, 0.5, 0.9, 1.0]), min_size=1, max_size=4)), min_size=1, max_size=3)}),
    quick=300)
def lanczos_filters(case, t):
    a = case['a']
    for n in case['sz']:
        if isinstance(n, int):
            for inc in (True, False):
                p = interp.interpolation_points(n, include_zero=inc)
                t.close(p, points(n, inc), rtol=1e-12, msg='interpolation_points(%d, %s)' % (n, inc))
    sz = tuple(n if isinstance(n, int) else np.array(n) for n in case['sz'])
    arg = sz[0] if (case['asint'] and len(sz) == 1 and isinstance(sz[0], int)) else sz
    h = interp.lanczos_filters(arg, a=a, collapse_axes=case['collapse'])
    xs = [points(n, True) if isinstance(n, int) else n for n in sz]
    nf = [len(x) for x in xs]
    exp = np.ones([2 * a + 1] * len(sz) + nf)
    for ax, x in enumerate(xs):
        k = kern(np.arange(-a, a + 1)[:, None] + x[None, :], a)
        k = k / k.sum(axis=0, keepdims=True)
        shp = [1] * (2 * len(sz))
        shp[ax], shp[len(sz) + ax] = k.shape
        exp = exp * k.reshape(shp)
    if case['collapse']:
        exp = exp.reshape([2 * a + 1] * len(sz) + [-1])
    t.close(h, exp, rtol=1e-9, atol=1e-12, msg='filters')
    t.nontrivial(any(np.any(x != np.rint(x)) for x in xs))


@CHECK.sub(st.fixed_dictionaries({'p': st.lists(st.floats(1.05, 3), min_size=1, max_size=3),
                                  'pos': st.integers(0, 2), 'neg': st.booleans()}), quick=60)
def lanczos_invalid(case, t):
    x = [0.0, 0.5]
    x.insert(case['pos'], (-1 if case['neg'] else 1) * case['p'][0])
    try:
        interp.lanczos_filters((3, np.array(x)))
    except ValueError:
        t.nontrivial(True)
        return
    t.check(False, 'interpolation point outside [-1, 1] accepted: %s', x)


regr = st.fixed_dictionaries({
    'M': st.integers(1, 8), 'N': st.integers(1, 3), 'seed': seeds(),
    'kind': st.sampled_from(['normal', 'line', 'smallint']), 'scale': st.sampled_from([1.0, 1.0, 1e-2, 1e2]),
    'off': st.sampled_from([0.0, -50.0, 50.0])})


def mkreg(case, t):
    rs = rng(case['seed'])
    M, N = case['M'], case['N']
    if M < N:
        M, N = N, M
    if case['kind'] == 'line':
        A = np.stack([np.arange(M, dtype=float)**k for k in range(N)], axis=1)
        b = A @ rs.randn(N) + (rs.rand(M) < 0.3) * rs.randn(M)
    elif case['kind'] == 'smallint':
        A = rs.randint(-2, 3, size=(M, N)).astype(float)
        b = rs.randint(-4, 5, size=M).astype(float)
    else:
        A, b = rs.randn(M, N), rs.randn(M)
    b = case['scale'] * b + case['off']
    if np.linalg.matrix_rank(A, tol=1e-6) < N:
        t.skip('rank deficient')
    return A, b, M, N


@CHECK.sub(regr, quick=300, shards=4)
def lad(case, t):
    """Least absolute deviation: an optimum interpolates N independent
    equations, so exhaustive search over subsets gives the exact value."""
    A, b, M, N = mkreg(case, t)
    A0, b0 = A.copy(), b.copy()
    x = interp.lstabsdev(A, b)
    t.check(x.shape == (N,), 'shape %s', x.shape)
    best = np.inf
    for s in itertools.combinations(range(M), N):
        As = A[list(s)]
        if abs(np.linalg.det(As)) > 1e-9:
            best = min(best, np.abs(A @ np.linalg.solve(As, b[list(s)]) - b).sum())
    got = np.abs(A @ x - b).sum()
    t.check(got <= best + 1e-6 * (1 + np.abs(b).sum()), 'sum of deviations %g, optimum %g', got, best)
    t.same(A, A0, 'A modified')
    t.same(b, b0, 'b modified')
    t.nontrivial(best > 1e-6)


@CHECK.sub(regr, quick=300, shards=4)
def lmd(case, t):
    """Least maximum deviation: dual bound b'y over circuits y of the rows
    (A'y = 0, |y|_1 = 1) is exact."""
    A, b, M, N = mkreg(case, t)
    x = interp.lstmaxdev(A, b)
    t.check(x.shape == (N,), 'shape %s', x.shape)
    bound = 0.0
    for k in range(1, N + 2):
        for s in itertools.combinations(range(M), k):
            As = A[list(s)]
            u, sv, vt = np.linalg.svd(As.T)
            null = k - int((sv > 1e-9).sum())
            if null == 1:
                y = vt[-1]
                bound = max(bound, abs(y @ b[list(s)]) / np.abs(y).sum())
    got = np.abs(A @ x - b).max()
    t.check(got <= bound + 1e-6 * (1 + np.abs(b).max()), 'maximum deviation %g, optimum %g', got, bound)
    t.nontrivial(bound > 1e-6)
