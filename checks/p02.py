"""P02: projections."""
import numpy as np
from vlib.core import Check, st, arrspec, mkarr, rng, seeds
from vlib import dsz as vd
from checks.p01 import slices, axis_strategy, ax, SHAPES, KIND
import sporco.prox as sp
import sporco.linalg as sl
import sporco.cnvrep as cr
import sporco.admm.cmod as acmod
import sporco.pgm.cmod as pcmod

CHECK = Check(
    'P02',
    rule='arrays of 1-4 axes with radii free or equal to a slice norm, every axis form and method; '
         'dictionary constraint sets from all five documented size-specification forms, 1-3 spatial '
         'dimensions; non-trivial = the input was outside the set and the result is non-zero',
    assumptions=['radius > 0; real or complex floating input (l1 ball and centred l2 ball: real)',
                 'an all-zero filter (or one that becomes zero after support/mean projection) stays zero, as coded'])


def ref_l1(v, g):
    """Exact projection of a vector on the l1 ball by bisection on the
    piecewise linear function of the threshold (independent of sorting)."""
    a = np.abs(v).astype(float)
    if a.sum() <= g:
        return v
    lo, hi = 0.0, a.max()
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if np.maximum(a - mid, 0).sum() > g:
            lo = mid
        else:
            hi = mid
    act = a > hi
    if act.any():
        hi = (a[act].sum() - g) / act.sum()
    return np.sign(v) * np.maximum(a - hi, 0)


@st.composite
def cases(draw, dts=('float64', 'float64', 'float32')):
    shape = draw(SHAPES)
    return dict(shape=shape, a=draw(arrspec(KIND)), dt=draw(st.sampled_from(dts)),
                gamma=draw(st.one_of(st.sampled_from([0.5, 1.0, 1e-3]), st.floats(1e-2, 10))),
                mode=draw(st.sampled_from(['free', 'free', 'frac', 'at'])), pick=draw(st.integers(0, 1000)),
                axis=draw(axis_strategy(len(shape))))


def radius(c, norms):
    n = float(norms[c['pick'] % len(norms)])
    if c['mode'] == 'at' and n > 1e-6:
        return n
    if c['mode'] == 'frac' and n > 1e-6:
        return n * (0.05 + 0.9 * (c['pick'] % 97) / 97.0)
    return c['gamma']


def etol(dt):
    return 5e-5 if np.dtype(dt).itemsize // (2 if np.dtype(dt).kind == 'c' else 1) == 4 else 1e-10


@CHECK.sub(cases(), quick=1800, shards=2, budget=30)
def l1ball(c, t):
    v = mkarr(c['a'], c['shape'], c['dt'])
    axis = ax(c)
    S = list(slices(v.shape, axis))
    g = radius(c, [np.abs(v[s].astype(float)).sum() for s, _ in S])
    e = etol(c['dt'])
    ref = np.zeros(v.shape)
    for s, _ in S:
        ref[s] = ref_l1(v[s].astype(float), g)
    # the root finder behind one of the methods has an absolute tolerance of 2e-12
    atol = e * max(np.abs(v).max(), 1e-9) + 2e-11
    methods = [None]
    methods += ['sortcumsum', 'scalarroot'] if axis is None else ['sortcumsum']
    for m in methods:
        v0 = v.copy()
        x = sp.proj_l1(v, g, axis=axis, method=m)
        t.same(v, v0, 'input modified')
        t.close(x, ref, rtol=e, atol=atol, msg='proj_l1 method %s' % m)
        for s, _ in S:
            n1 = np.abs(x[s].astype(float)).sum()
            t.check(n1 <= g * (1 + 10 * e) + 10 * atol * x[s].size, 'outside ball: %g > %g', n1, g)
        y = sp.proj_l1(np.array(x), g * (1 + 1e-6) + 20 * atol * x.size, axis=axis, method=m)
        t.close(y, x, rtol=e, atol=atol, msg='member moved')
    t.nontrivial(np.any(ref != v) and np.any(ref))
    t.label('several slices', len(S) > 1)


@CHECK.sub(cases(dts=('float64', 'complex128', 'float32', 'complex64')), quick=1500, shards=1, budget=30)
def l2ball(c, t):
    v = mkarr(c['a'], c['shape'], c['dt'])
    axis = ax(c)
    S = list(slices(v.shape, axis))
    norms = [np.linalg.norm(v[s].astype(complex).ravel()) for s, _ in S]
    g = radius(c, norms)
    e = etol(c['dt'])
    ref = v.astype(complex)
    for (s, _), n in zip(S, norms):
        if n > g:
            ref[s] = v[s] * (g / n)
    atol = e * max(np.abs(v).max(), 1e-9)
    v0 = v.copy()
    x = sp.proj_l2(v, g, axis=axis)
    t.same(v, v0, 'input modified')
    t.close(x, ref, rtol=e, atol=atol, msg='proj_l2')
    t.nontrivial(any(n > g for n in norms))
    if np.isrealobj(v):
        s = mkarr(c['a'], c['shape'], c['dt'], salt=5)
        d = [np.linalg.norm((v - s)[q].astype(float).ravel()) for q, _ in S]
        r = radius(c, d)
        y = sl.proj_l2ball(v, s, r, axes=axis)
        ref = v.astype(float)
        for (q, _), n in zip(S, d):
            if n > r:
                ref[q] = s[q] + (v[q].astype(float) - s[q]) * (r / n)
        t.close(y, ref, rtol=e, atol=etol(c['dt']) * max(np.abs(v).max(), np.abs(s).max(), 1e-9), msg='proj_l2ball')


@st.composite
def dcases(draw):
    d = draw(vd.dsz_spec())
    return dict(d=d, pad=[draw(st.integers(0, 3)) for _ in range(d['dimN'])],
                a=draw(arrspec(('normal', 'sparse', 'const', 'zeros', 'smallint', 'big'))),
                zm=draw(st.booleans()), user=draw(st.booleans()),
                fs=draw(st.lists(st.sampled_from([0, 0, 0, -2, -5, -10, -12, 4]), min_size=1, max_size=4)),
                dt=draw(st.sampled_from(['float64', 'float64', 'float32', 'complex128'])))


@CHECK.sub(dcases(), quick=1500, shards=2, budget=30)
def dictset(c, t):
    """Convolutional dictionary constraint set: support, zero mean, norm."""
    d = c['d']
    n = d['dimN']
    mx = vd.maxsize(d)
    Nv = tuple(a + b for a, b in zip(mx, c['pad']))
    spec = vd.as_tuple(d['spec'])
    user = c['user'] and (d['C'] > 1 or d['form'] in 'ABCDE')
    x = mkarr(c['a'], Nv + (d['C'], d['M']), c['dt'])
    # filters of very different magnitude
    x *= np.resize(10.0 ** np.array(c['fs']), d['M']).astype(x.real.dtype)
    t.label('tiny filter', min(c['fs']) < -8)
    ref = vd.project(x.astype(complex if c['dt'].startswith('c') else float), d, c['zm'])
    refc = ref[tuple(slice(0, k) for k in mx)]
    # array layouts: internal (channel, signal, filter) or as users pass it
    chan = d['form'] in 'BDE'
    dimC = 1 if chan else 0
    if user:
        shp = Nv + ((d['C'],) if chan else ()) + (d['M'],)
    else:
        shp = Nv + (d['C'], 1, d['M'])
    xi = x.reshape(shp)
    e = etol(c['dt'])
    for crp in (False, True):
        R = (refc if crp else ref)
        R = R.reshape((mx if crp else Nv) + shp[n:])
        for nm, fn in (('Pcn', lambda z: cr.Pcn(z, spec, Nv, n, dimC, crp=crp, zm=c['zm'])),
                       ('getPcn', cr.getPcn(spec, Nv, n, dimC, crp=crp, zm=c['zm']))):
            x0 = xi.copy()
            y = fn(xi)
            t.same(xi, x0, 'input modified')
            # filters whose projection is numerically zero have no defined direction
            bad = np.array([np.linalg.norm(_sub(x, d, c['zm'], k)) < 1e3 * e * (1e-30 + np.abs(x[..., k]).max())
                            for k in range(d['M'])])
            t.close(y[..., ~bad], R[..., ~bad], rtol=20 * e, atol=20 * e, msg='%s crp=%s' % (nm, crp))
            t.finite(y, nm)
            if not crp:
                z = fn(y)
                t.close(z[..., ~bad], y[..., ~bad], rtol=20 * e, atol=20 * e, msg='%s not idempotent' % nm)
    b = cr.bcrop(xi, spec, n)
    mk = vd.mask(d, mx).reshape(mx + shp[n:])
    t.same(b, np.where(mk, xi[tuple(slice(0, k) for k in mx)], 0), 'crop')
    t.nontrivial(np.any(ref))
    t.label('form ' + d['form'])
    t.label('dimN %d' % n)


def _sub(x, d, zm, k):
    mk = vd.mask(d, x.shape[:d['dimN']])
    out = []
    for ch in range(d['C']):
        v = x[..., ch, k][mk[..., ch, k]]
        out.append(v - (v.mean() if zm else 0))
    return np.concatenate(out)


@st.composite
def mcases(draw):
    return dict(n=draw(st.integers(1, 6)), m=draw(st.integers(1, 5)),
                a=draw(arrspec(('normal', 'sparse', 'const', 'zeros', 'smallint'))),
                fs=draw(st.lists(st.sampled_from([0, 0, 0, -2, -5, -10, -12, 4]), min_size=1, max_size=5)),
                con=draw(st.sampled_from(['norm', 'zm', 'nn'])))


@CHECK.sub(mcases(), quick=600, shards=1, budget=20)
def matrixset(c, t):
    """Dense dictionary constraint set (columns)."""
    # columns of very different magnitude
    x = mkarr(c['a'], (c['n'], c['m'])) * np.resize(10.0 ** np.array(c['fs']), c['m'])
    y = x.copy()
    if c['con'] == 'zm':
        y = y - y.mean(axis=0)
    if c['con'] == 'nn':
        y = np.maximum(y, 0)
    # a column whose projection is numerically zero has no defined direction
    ok = np.linalg.norm(y, axis=0) > 1e-8 * np.abs(x).max(axis=0)
    ref = np.where(ok, y / np.where(ok, np.linalg.norm(y, axis=0), 1), 0)
    fns = [pcmod.getPcn(c['con'] == 'zm', c['con'] == 'nn')]
    if c['con'] != 'nn':
        fns.append(acmod.getPcn(c['con'] == 'zm'))
    for fn in fns:
        x0 = x.copy()
        p = fn(x)
        t.same(x, x0, 'input modified')
        t.close(p[:, ok], ref[:, ok], rtol=1e-7 if c['con'] == 'zm' else 1e-10, msg='column constraint')
        t.finite(p, 'column constraint')
        q = fn(p)
        t.close(q[:, ok], p[:, ok], rtol=1e-7 if c['con'] == 'zm' else 1e-9, msg='not idempotent')
    if c['con'] == 'nn':
        try:
            pcmod.getPcn(True, True)
            t.check(False, 'zero-mean and non-negative accepted together')
        except ValueError:
            pass
    t.nontrivial(ok.any())
