"""P01: proximal operators minimise their documented objective."""
import itertools
import math
import numpy as np
from vlib.core import Check, st, arrspec, mkarr, rng
import sporco.prox as sp

CHECK = Check(
    'P01',
    rule='arrays of 1-4 axes (sizes 1-4; float32/float64/complex), thresholds free, zero, '
         'broadcast arrays or exactly equal to an element/slice magnitude, axis None / int / '
         'negative / tuple; non-trivial = the operator neither returned its input unchanged nor all zeros',
    assumptions=['real floating or complex input; threshold >= 0; l1-l2 operator: real input, 0<=beta<=1, '
                 'scalar threshold, single axis, as documented'])

SHAPES = st.lists(st.integers(1, 4), min_size=1, max_size=4)
ALPHA = st.one_of(st.sampled_from([0.0, 0.25, 1.0, 3.0, 1e3]),
                  st.floats(1e-3, 5.0, allow_nan=False))
DT = st.sampled_from(['float64', 'float64', 'complex128', 'float32', 'complex64'])
KIND = ('normal', 'smallint', 'sparse', 'zeros', 'big', 'const', 'tiny')


@st.composite
def cases(draw, axes=True, dts=DT):
    shape = draw(SHAPES)
    nd = len(shape)
    c = dict(shape=shape, a=draw(arrspec(KIND)), dt=draw(dts), alpha=draw(ALPHA),
             mode=draw(st.sampled_from(['free', 'free', 'at', 'array'])),
             pick=draw(st.integers(0, 1000)), beta=draw(ALPHA))
    if axes:
        c['axis'] = draw(axis_strategy(nd))
    return c


def axis_strategy(nd):
    return st.one_of(
        st.none(), st.integers(-nd, nd - 1),
        st.lists(st.integers(0, nd - 1), min_size=1, max_size=nd, unique=True))


def ax(c):
    a = c['axis']
    return tuple(a) if isinstance(a, list) else a


def tol(dt):
    return 2e-5 if np.dtype(dt).itemsize == (4 if np.dtype(dt).kind == 'f' else 8) else 1e-11


def slices(shape, axis):
    """Index tuples, one per vector over which a norm is taken."""
    nd = len(shape)
    if axis is None:
        axs = tuple(range(nd))
    elif isinstance(axis, int):
        axs = (axis % nd,)
    else:
        axs = tuple(axis)
    oth = [k for k in range(nd) if k not in axs]
    for idx in itertools.product(*[range(shape[k]) for k in oth]):
        s = [slice(None)] * nd
        for k, i in zip(oth, idx):
            s[k] = i
        yield tuple(s), tuple(0 if k in axs else s[k] for k in range(nd))


def near(p):
    """Factor placing a threshold exactly at or just beside a switching point."""
    return (1.0, 1.0, 1 - 4e-4, 1 + 4e-4, 1 - 1e-6, 0.97)[(p // 7) % 6]


def mkalpha(c, v, mags, kshape):
    """Threshold of the requested kind; mags are the magnitudes at which
    the operator's behaviour switches, kshape the broadcastable shape."""
    if c['mode'] == 'at':
        return float(np.ravel(mags)[c['pick'] % np.size(mags)]) * near(c['pick'])
    if c['mode'] == 'array':
        return (c['alpha'] * (0.5 + rng(c['pick']).rand(*kshape))).astype(
            np.zeros(0, v.dtype).real.dtype)
    return c['alpha']


def aval(alpha, shape):
    return np.broadcast_to(np.asarray(alpha, dtype=float), shape)


def interesting(t, x, v):
    x = np.asarray(x)
    t.nontrivial(x.size and np.any(x) and not np.array_equal(x, v))
    t.label('zero-result', not np.any(x))


@CHECK.sub(cases(axes=False), quick=1500, shards=2, budget=30)
def l1(c, t):
    """Soft threshold: element-wise definition."""
    v = mkarr(c['a'], c['shape'], c['dt'])
    al = mkalpha(c, v, np.abs(v), v.shape)
    v0 = v.copy()
    x = sp.prox_l1(v, al)
    t.same(v, v0, 'input modified')
    t.check(x.shape == v.shape, 'shape')
    A = aval(al, v.shape)
    ref = np.zeros(v.shape, dtype=complex)
    for i in np.ndindex(*v.shape):
        m = abs(complex(v[i]))
        ref[i] = 0 if m <= A[i] else complex(v[i]) / m * (m - A[i])
    t.close(x, ref, rtol=tol(c['dt']), atol=tol(c['dt']) * np.abs(v).max(), msg='prox_l1')
    t.check(np.isrealobj(x) == np.isrealobj(v), 'real/complex kind')
    interesting(t, x, v)
    t.label('complex', np.iscomplexobj(v))


@CHECK.sub(cases(axes=False), quick=1000, shards=1, budget=30)
def l0(c, t):
    """Hard threshold: each element is 0 or v_i, whichever is cheaper."""
    v = mkarr(c['a'], c['shape'], c['dt'])
    al = mkalpha(c, v, 0.5 * np.abs(v)**2, v.shape)
    x = sp.prox_l0(v, al)
    t.check(x.shape == v.shape, 'shape')
    A = aval(al, v.shape)
    e = tol(c['dt'])
    for i in np.ndindex(*v.shape):
        f = lambda z: 0.5 * abs(z - complex(v[i]))**2 + (A[i] if z != 0 else 0.0)
        best = min(f(0), f(complex(v[i])))
        t.check(f(complex(x[i])) <= best + e * (1 + abs(v[i])**2), 'prox_l0 not minimal at %s: v=%r alpha=%r x=%r', i, v[i], A[i], x[i])
    interesting(t, x, v)


@CHECK.sub(cases(), quick=1500, shards=2, budget=30)
def l2(c, t):
    """Vector shrinkage per slice, with per-slice thresholds."""
    v = mkarr(c['a'], c['shape'], c['dt'])
    axis = ax(c)
    sl = list(slices(v.shape, axis))
    nd = v.ndim
    kshape = [1] * nd
    for _, ki in sl:
        kshape = [max(a, b + 1) for a, b in zip(kshape, ki)]
    mags = [np.sqrt(np.sum(np.abs(v[s].astype(complex))**2)) for s, _ in sl]
    al = mkalpha(c, v, mags, kshape)
    v0 = v.copy()
    x = sp.prox_l2(v, al, axis=axis)
    t.same(v, v0, 'input modified')
    A = aval(al, kshape) if np.ndim(al) else aval(al, kshape)
    ref = np.zeros(v.shape, dtype=complex)
    for (s, ki), m in zip(sl, mags):
        a = A[ki]
        ref[s] = 0 if m <= a else v[s] * ((m - a) / m)
    t.close(x, ref, rtol=tol(c['dt']), atol=tol(c['dt']) * np.abs(v).max(), msg='prox_l2')
    interesting(t, x, v)
    t.label('multi-slice', len(sl) > 1)


@CHECK.sub(cases(), quick=1200, shards=2, budget=30)
def sl1l2(c, t):
    """l1+l2: sub-gradient optimality on every slice."""
    v = mkarr(c['a'], c['shape'], c['dt'])
    axis = ax(c)
    sl = list(slices(v.shape, axis))
    al = float(c['alpha'])
    be = float(c['beta'])
    if c['mode'] == 'at':
        al = float(np.abs(v).ravel()[c['pick'] % v.size])
    x = sp.prox_sl1l2(v, al, be, axis=axis)
    t.check(x.shape == v.shape, 'shape')
    t.finite(x, 'prox_sl1l2')
    e = 20 * tol(c['dt']) * (1 + np.abs(v).max())
    for s, _ in sl:
        xs = x[s].astype(complex).ravel()
        vs = v[s].astype(complex).ravel()
        n = np.linalg.norm(xs)
        if n == 0:
            sh = np.maximum(np.abs(vs) - al, 0)
            t.check(np.linalg.norm(sh) <= be + e, 'zero returned but not optimal: |soft|=%g beta=%g', np.linalg.norm(sh), be)
        else:
            g = vs - xs - be * xs / n
            for gi, xi in zip(g, xs):
                if xi == 0:
                    t.check(abs(gi) <= al + e, 'sub-gradient too large at zero')
                else:
                    # tolerance grows where the direction is ill-conditioned
                    t.check(abs(gi - al * xi / abs(xi)) <= e * (1 + be / n + al / abs(xi)),
                            'stationarity fails: g=%r alpha=%g x=%r', gi, al, xi)
    interesting(t, x, v)


@st.composite
def dcases(draw):
    c = draw(cases(axes=False, dts=st.sampled_from(['float64', 'float64', 'float32'])))
    nd = len(c['shape'])
    c['axis'] = draw(st.one_of(st.none(), st.integers(-nd, nd - 1)))
    c['beta'] = draw(st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 1)))
    if c['mode'] == 'array':
        c['mode'] = 'free'
    return c


def f_dl(x, v, al, be):
    return al * (np.abs(x).sum() - be * np.linalg.norm(x)) + 0.5 * np.sum((x - v)**2)


@CHECK.sub(dcases(), quick=1500, shards=2, budget=30)
def dl1l2(c, t):
    """l1-l2 (non-convex): no competitor (closed-form families, local
    descent from many starts) has a lower objective."""
    v = mkarr(c['a'], c['shape'], c['dt'])
    axis = c['axis']
    al = mkalpha(c, v, np.abs(v), ())
    be = float(c['beta'])
    v0 = v.copy()
    x = sp.prox_dl1l2(v, al, be, axis=axis)
    t.same(v, v0, 'input modified')
    t.check(x.shape == v.shape, 'shape')
    t.finite(x, 'prox_dl1l2')
    rs = rng(c['pick'], 3)
    e = 50 * tol(c['dt'])
    for s, _ in slices(v.shape, axis):
        vs = v[s].astype(float).ravel()
        xs = x[s].astype(float).ravel()
        fx = f_dl(xs, vs, al, be)
        cand = [np.zeros_like(vs), vs.copy()]
        soft = np.sign(vs) * np.maximum(np.abs(vs) - al, 0)
        n = np.linalg.norm(soft)
        if n > 0:
            cand.append(soft * (1 + al * be / n))
        for i in range(vs.size):
            z = np.zeros_like(vs)
            z[i] = np.sign(vs[i]) * max(0, abs(vs[i]) + (be - 1) * al)
            cand.append(z)
        for k in range(3):
            z = vs + rs.randn(vs.size) * (0.5 * np.abs(vs).max() + 0.1)
            for _ in range(15):         # majorise -||x||2 by its linearisation
                nz = np.linalg.norm(z)
                w = vs + (al * be * z / nz if nz > 0 else 0)
                z = np.sign(w) * np.maximum(np.abs(w) - al, 0)
            cand.append(z)
        fb = min(f_dl(z, vs, al, be) for z in cand)
        t.check(fx <= fb + e * (1 + 0.5 * np.sum(vs**2)), 'objective %.12g, competitor %.12g', fx, fb)
    interesting(t, x, v)


@st.composite
def ncases(draw):
    return dict(m=draw(st.integers(1, 5)), n=draw(st.integers(1, 5)), a=draw(arrspec(KIND)),
                dt=draw(DT), rank=draw(st.integers(1, 5)), alpha=draw(ALPHA),
                mode=draw(st.sampled_from(['free', 'at'])), pick=draw(st.integers(0, 83)))


@CHECK.sub(ncases(), quick=800, shards=1, budget=30)
def nuclear(c, t):
    """Singular value shrinkage: dual certificate of optimality."""
    U = mkarr(c['a'], (c['m'], min(c['rank'], 5)), c['dt'])
    W = mkarr(c['a'], (min(c['rank'], 5), c['n']), c['dt'], salt=1)
    V = U.dot(W)
    sv = np.linalg.svd(V.astype(complex), compute_uv=False)
    al = float(sv[c['pick'] % sv.size]) * near(c['pick']) if c['mode'] == 'at' else c['alpha']
    X, s = sp.prox_nuclear(V, al)
    t.check(X.shape == V.shape, 'shape')
    e = 50 * tol(c['dt']) * (1 + sv[0])
    nn = np.sum(np.linalg.svd(X.astype(complex), compute_uv=False))
    t.close(np.sum(s), nn, rtol=1e-5 if e > 1e-7 else 1e-9, atol=e * s.size, msg='returned singular values')
    R = (V - X).astype(complex)
    t.check(np.linalg.svd(R, compute_uv=False)[0] <= al + e, 'dual norm exceeds alpha')
    ip = np.real(np.sum(np.conj(R) * X))
    t.check(abs(ip - al * nn) <= e * (1 + al + nn), 'not optimal: <V-X,X>=%g alpha*norm=%g', ip, al * nn)
    nv = sp.norm_nuclear(V)
    t.close(nv, sv.sum(), rtol=1e-4 if e > 1e-7 else 1e-9, atol=e * sv.size, msg='norm_nuclear')
    t.nontrivial(0 < np.count_nonzero(np.asarray(s) > 0) < sv.size or (al > 0 and nn > 0))
    t.label('partial-rank', 0 < np.count_nonzero(np.asarray(s) > 1e-9) < sv.size)


@CHECK.sub(cases(), quick=1200, shards=1, budget=30)
def norms(c, t):
    """Norm functions against per-slice sums; documented single-element
    results are scalars."""
    v = mkarr(c['a'], c['shape'], c['dt'])
    axis = ax(c)
    sl = list(slices(v.shape, axis))
    e = 5 * tol(c['dt'])
    be = min(1.0, c['beta'])
    eps = c['alpha'] if c['mode'] == 'free' else 0.0
    fns = [
        (lambda: sp.norm_l1(v, axis=axis), lambda z: np.abs(z).sum(), 'norm_l1'),
        (lambda: sp.norm_2l2(v, axis=axis), lambda z: (np.abs(z)**2).sum(), 'norm_2l2'),
        (lambda: sp.norm_l2(v, axis=axis), lambda z: math.sqrt((np.abs(z)**2).sum()), 'norm_l2'),
        (lambda: sp.norm_l0(v, axis=axis, eps=eps), lambda z: np.sum(np.abs(z) > eps), 'norm_l0'),
        (lambda: sp.norm_dl1l2(v, be, axis=axis),
         lambda z: np.abs(z).sum() - be * math.sqrt((np.abs(z)**2).sum()), 'norm_dl1l2'),
    ]
    for fn, ref, nm in fns:
        r = fn()
        vals = np.array([ref(v[s].astype(v.dtype if nm == 'norm_l0' else complex)) for s, _ in sl])
        if nm == 'norm_l0':
            gap = np.abs(np.abs(v.astype(complex)) - eps)
            if np.any(gap < 1e-6 * (1 + eps)) and eps > 0:
                continue
        if len(sl) == 1:
            t.check(np.ndim(r) == 0, '%s: single value not a scalar', nm)
            t.close(r, vals[0], rtol=e, msg=nm)
        else:
            got = np.array([np.asarray(r)[ki] for _, ki in sl])
            t.close(got, vals, rtol=e, msg=nm)
    l21 = sum(math.sqrt((np.abs(v[s].astype(complex))**2).sum()) for s, _ in sl)
    t.close(sp.norm_l21(v, axis=axis), l21, rtol=e, msg='norm_l21')
    t.nontrivial(len(sl) > 1 and np.any(v))


@CHECK.sub(cases(), quick=400, shards=1, budget=20)
def fold(c, t):
    """Folding axes into rows and back is lossless and groups by slice."""
    v = mkarr(c['a'], c['shape'], c['dt'])
    axis = ax(c)
    if axis is None:
        axis = tuple(range(v.ndim))
    m, rsi = sp.ndto2d(v, axis)
    t.check(m.ndim == 2, 'not 2d')
    key = lambda r: [(z.real, z.imag) for z in r]
    got = sorted((sorted(r.astype(complex).tolist(), key=lambda z: (z.real, z.imag)) for r in m), key=key)
    exp = sorted((sorted(np.ravel(v[s]).astype(complex).tolist(), key=lambda z: (z.real, z.imag))
                  for s, _ in slices(v.shape, axis)), key=key)
    t.check(got == exp, 'rows of folded array are not the slices')
    t.same(sp.ndfrom2d(m, rsi), v, 'unfold(fold(x))')
    t.nontrivial(v.ndim > 1)
