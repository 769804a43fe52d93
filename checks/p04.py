"""P04: Fourier and cosine transforms."""
import itertools
import numpy as np
from vlib.core import Check, st, arrspec, mkarr, rng
import sporco.fft as sfft
import sporco.linalg as sl

sfft.pyfftw_threads = 1
sfft.pyfftw_planner_effort = 'FFTW_ESTIMATE'

CHECK = Check(
    'P04',
    rule='arrays of 1-4 axes (sizes 1-7, odd and even), four precisions, any ordered axis subset '
         '(also negative for the DCT), transform sizes below/equal/above the array size; non-trivial = at least one '
         'transformed axis longer than one and a non-zero array',
    assumptions=['axes are distinct; Fourier axes are non-negative (the plan cache of the third-party pyFFTW '
                 'confuses axis -1 with axis -2, whose Python hashes are equal)', 'irfftn is given the spatial size, as its signature requires'])

KIND = ('normal', 'smallint', 'sparse', 'big', 'const')
SHAPES = st.one_of(st.lists(st.integers(1, 7), min_size=1, max_size=3),
                   st.lists(st.integers(1, 4), min_size=4, max_size=4))
RDT = st.sampled_from(['float64', 'float64', 'float32'])
CDT = st.sampled_from(['complex128', 'complex128', 'complex64'])
ADT = st.one_of(RDT, CDT)


@st.composite
def cases(draw, dts=ADT, size=True, neg=False):
    shape = draw(SHAPES)
    nd = len(shape)
    c = dict(shape=shape, a=draw(arrspec(KIND)), dt=draw(dts))
    axes = draw(st.one_of(st.none(), st.lists(st.integers(0, nd - 1), min_size=1, max_size=nd,
                                              unique=True)))
    c['axes'] = axes
    c['neg'] = neg and draw(st.booleans())
    n = nd if axes is None else len(axes)
    c['s'] = draw(st.one_of(st.none(), st.lists(st.integers(1, 7), min_size=n, max_size=n))) \
        if size and axes is not None else None
    return c


def setup(c):
    x = mkarr(c['a'], c['shape'], c['dt'])
    axes = None if c['axes'] is None else tuple(c['axes'])
    nd = x.ndim
    pos = tuple(range(nd)) if axes is None else axes
    if axes is not None and c['neg']:
        axes = tuple(a - nd for a in axes)
    return x, axes, pos


def tol(dt):
    return 3e-5 if np.dtype(dt) in (np.float32, np.complex64) else 1e-11


def resize(x, s, pos):
    if s is None:
        return x
    for k, n in zip(pos, s):
        m = x.shape[k]
        if n <= m:
            x = x[(slice(None),) * k + (slice(0, n),)]
        else:
            pw = [(0, 0)] * x.ndim
            pw[k] = (0, n - m)
            x = np.pad(x, pw, 'constant')
    return x


def alongaxis(M, x, k):
    return np.moveaxis(np.tensordot(M, x, axes=(1, k)), 0, k)


def dftmat(n):
    k = np.arange(n)
    return np.exp(-2j * np.pi * np.outer(k, k) / n)


def ref_fft(x, pos, inv=False):
    y = x.astype(complex)
    for k in pos:
        n = y.shape[k]
        F = dftmat(n)
        y = alongaxis(np.conj(F) / n if inv else F, y, k)
    return y


def cdt(dt):
    return {'float32': np.complex64, 'complex64': np.complex64}.get(str(np.dtype(dt)), np.complex128)


def rdt(dt):
    return {'float32': np.float32, 'complex64': np.float32}.get(str(np.dtype(dt)), np.float64)


def nontriv(t, x, pos):
    t.nontrivial(any(x.shape[k] > 1 for k in pos) and np.any(x))


@CHECK.sub(cases(), quick=1600, shards=2)
def fft_definition(c, t):
    """fftn / ifftn equal the DFT definition, are mutual inverses, keep
    precision and leave the input alone."""
    x, axes, pos = setup(c)
    s = c['s']
    x0 = x.copy()
    nontriv(t, x, pos)
    t.label('resized', s is not None)
    y = sfft.fftn(x, s, axes)
    t.same(x, x0, 'input of fftn modified')
    t.eq(y.dtype, np.dtype(cdt(c['dt'])), 'fftn dtype')
    t.close(y, ref_fft(resize(x, s, pos), pos), rtol=tol(c['dt']), msg='fftn vs definition')
    z = sfft.ifftn(x, s, axes)
    t.same(x, x0, 'input of ifftn modified')
    t.eq(z.dtype, np.dtype(cdt(c['dt'])), 'ifftn dtype')
    t.close(z, ref_fft(resize(x, s, pos), pos, inv=True), rtol=tol(c['dt']), msg='ifftn vs definition')
    xr = resize(x, s, pos)
    y0 = y.copy()
    t.close(sfft.ifftn(y, None, axes), xr, rtol=tol(c['dt']), msg='ifftn(fftn(x))')
    t.same(y, y0, 'input of ifftn modified')
    t.close(sfft.fftn(z, None, axes), xr, rtol=tol(c['dt']), msg='fftn(ifftn(x))')


@CHECK.sub(cases(dts=RDT), quick=1600, shards=2)
def rfft_definition(c, t):
    """rfftn is the half spectrum of the DFT, irfftn its inverse."""
    x, axes, pos = setup(c)
    s = c['s']
    x0 = x.copy()
    nontriv(t, x, pos)
    y = sfft.rfftn(x, s, axes)
    t.same(x, x0, 'input of rfftn modified')
    xr = resize(x, s, pos)
    ref = ref_fft(xr, pos)
    la = pos[-1]
    half = ref[(slice(None),) * la + (slice(0, xr.shape[la] // 2 + 1),)]
    t.label('odd', xr.shape[la] % 2 == 1)
    t.eq(y.dtype, np.dtype(cdt(c['dt'])), 'rfftn dtype')
    t.close(y, half, rtol=tol(c['dt']), msg='rfftn vs definition')
    y0 = y.copy()
    z = sfft.irfftn(y, [xr.shape[k] for k in pos], axes)
    t.same(y, y0, 'input of irfftn modified')
    t.eq(z.dtype, np.dtype(rdt(c['dt'])), 'irfftn dtype')
    t.close(z, xr, rtol=tol(c['dt']), msg='irfftn(rfftn(x))')


@CHECK.sub(cases(size=False), quick=800)
def energy(c, t):
    """fl2norm2 and rfl2norm2 equal the spatial energy."""
    x, axes, pos = setup(c)
    nontriv(t, x, pos)
    ref = float(np.sum(np.abs(x.astype(complex))**2))
    ax = pos if axes is None else axes
    xf = sfft.fftn(x, None, ax)
    t.close(sfft.fl2norm2(xf, ax), ref, rtol=tol(c['dt']), msg='fl2norm2')
    t.close(sfft.fl2norm2_func(False)(xf, x.shape, ax), ref, rtol=tol(c['dt']),
            msg='fl2norm2_func(False)')
    if x.dtype.kind == 'f':
        xf = sfft.rfftn(x, None, ax)
        xf0 = xf.copy()
        t.label('last_' + str(x.shape[pos[-1]] % 2 if x.shape[pos[-1]] > 1 else 'one'))
        t.close(sfft.rfl2norm2(xf, x.shape, ax), ref, rtol=tol(c['dt']), msg='rfl2norm2')
        t.close(sfft.fl2norm2_func(True)(xf, x.shape, ax), ref, rtol=tol(c['dt']),
                msg='fl2norm2_func(True)')
        t.same(xf, xf0, 'input modified')


def ref_conv(a, b, axes, origin):
    """Direct circular convolution over axes (broadcast over the others)."""
    nd = a.ndim
    N = [max(a.shape[k], b.shape[k]) for k in axes]
    out = None
    for ia in itertools.product(*[range(a.shape[k]) for k in axes]):
        sa = [slice(None)] * nd
        for k, i in zip(axes, ia):
            sa[k] = slice(i, i + 1)
        # b zero-padded, circularly shifted by ia, times a at ia
        bp = np.zeros([N[axes.index(k)] if k in axes else b.shape[k] for k in range(nd)],
                      dtype=complex)
        bp[tuple(slice(0, n) for n in b.shape)] = b
        term = a[tuple(sa)] * np.roll(bp, ia, axis=axes)
        out = term if out is None else out + term
    if origin is not None:
        idx = np.ix_(*[(np.arange(out.shape[k]) + (origin[axes.index(k)] if k in axes else 0)) %
                       out.shape[k] for k in range(nd)])
        out = out[idx]
    return out


@st.composite
def convcases(draw):
    nd = draw(st.integers(1, 3))
    axes = draw(st.one_of(st.none(), st.lists(st.integers(0, nd - 1), min_size=1, max_size=nd,
                                              unique=True)))
    axs = list(range(nd)) if axes is None else axes
    sa, sb = [], []
    for k in range(nd):
        if k in axs:
            sa.append(draw(st.integers(1, 4)))
            sb.append(draw(st.integers(1, 6)))
        else:
            n = draw(st.integers(1, 3))
            w = draw(st.integers(0, 2))
            sa.append(n if w != 1 else 1)
            sb.append(n if w != 2 else 1)
    org = draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=len(axs), max_size=len(axs))))
    return dict(sa=sa, sb=sb, axes=axes, origin=org, a=draw(arrspec(KIND)), b=draw(arrspec(KIND)),
                da=draw(ADT), db=draw(ADT))


@CHECK.sub(convcases(), quick=800, shards=2)
def convolution(c, t):
    """fftconv equals direct circular convolution with origin shift."""
    a = mkarr(c['a'], c['sa'], c['da'])
    b = mkarr(c['b'], c['sb'], c['db'], salt=1)
    a0, b0 = a.copy(), b.copy()
    axes = None if c['axes'] is None else tuple(c['axes'])
    axs = tuple(range(a.ndim)) if axes is None else axes
    org = c['origin']
    o = None if org is None else tuple(org)
    y = sfft.fftconv(a, b, axes=axes, origin=o)
    ref = ref_conv(a, b, axs, org)
    t.nontrivial(np.any(ref) and any(a.shape[k] > 1 or (org and org[axs.index(k)]) for k in axs))
    t.label('origin', org is not None)
    tl = max(tol(c['da']), tol(c['db']))
    t.close(y, ref, rtol=tl, atol=tl * (np.abs(a).max() * np.abs(b).max() * a.size),
            msg='fftconv vs direct convolution')
    if a.dtype.kind == 'f' and b.dtype.kind == 'f':
        t.eq(y.dtype.kind, 'f', 'fftconv of real arrays')
    t.same(a, a0, 'first argument modified')
    t.same(b, b0, 'second argument modified')


def dctmat(n):
    k = np.arange(n)[:, None]
    i = np.arange(n)[None, :]
    M = np.sqrt(2.0 / n) * np.cos(np.pi * k * (2 * i + 1) / (2.0 * n))
    M[0] /= np.sqrt(2.0)
    return M


@CHECK.sub(cases(dts=RDT, size=False, neg=True), quick=800)
def dct_definition(c, t):
    """dctii / idctii equal the orthonormal DCT-II and its inverse."""
    x, axes, pos = setup(c)
    x0 = x.copy()
    nontriv(t, x, pos)
    y = sfft.dctii(x, axes)
    t.same(x, x0, 'input modified')
    ref = x.astype(float)
    inv = x.astype(float)
    for k in pos:
        ref = alongaxis(dctmat(ref.shape[k]), ref, k)
        inv = alongaxis(dctmat(inv.shape[k]).T, inv, k)
    t.eq(y.dtype, x.dtype, 'dctii dtype')
    t.close(y, ref, rtol=tol(c['dt']), msg='dctii vs definition')
    z = sfft.idctii(x, axes)
    t.same(x, x0, 'input modified')
    t.close(z, inv, rtol=tol(c['dt']), msg='idctii vs definition')
    t.eq(z.dtype, x.dtype, 'idctii dtype')
    t.close(sfft.idctii(y, axes), x, rtol=tol(c['dt']), msg='idctii(dctii(x))')
    if axes is not None:
        t.close(sfft.dctii(x, list(axes)), y, rtol=tol(c['dt']), msg='list of axes')


@CHECK.sub(st.tuples(cases(size=False), st.sampled_from(['C', 'F'])).map(
    lambda p: dict(p[0], order=p[1])), quick=400)
def helpers(c, t):
    """dtype helpers, aligned allocation, real/complex selectors."""
    x, axes, pos = setup(c)
    dt = np.dtype(c['dt'])
    ax = pos if axes is None else axes
    nontriv(t, x, pos)
    t.eq(sfft.complex_dtype(dt), np.dtype(cdt(dt)), 'complex_dtype')
    t.eq(sfft.real_dtype(dt), np.dtype(rdt(dt)), 'real_dtype')
    t.eq(bool(sfft.is_complex_dtype(dt)), dt.kind == 'c', 'is_complex_dtype')
    e = sfft.empty_aligned(x.shape, dt, order=c['order'])
    t.eq((e.shape, e.dtype), (x.shape, dt), 'empty_aligned')
    xb = sfft.byte_aligned(x)
    t.same(xb, x, 'byte_aligned values')
    t.eq(xb.dtype, x.dtype, 'byte_aligned dtype')
    e = sfft.empty_aligned_func(False)(x.shape, ax, dt)
    t.eq((e.shape, e.dtype), (x.shape, dt), 'empty_aligned_func(False)')
    if dt.kind == 'f':
        y = sfft.rfftn(x, None, ax)
        for f in (sfft.rfftn_empty_aligned, sfft.empty_aligned_func(True)):
            e = f(x.shape, ax, dt)
            t.eq((e.shape, e.dtype), (y.shape, y.dtype), 'rfftn_empty_aligned')
        t.close(sfft.fftn_func(True)(x, None, ax), y, rtol=1e-6, msg='fftn_func(True)')
        t.close(sfft.ifftn_func(True)(y, [x.shape[k] for k in pos], ax), x, rtol=tol(dt),
                msg='ifftn_func(True)')
    t.close(sfft.fftn_func(False)(x, None, ax), ref_fft(x, pos), rtol=tol(dt), msg='fftn_func(False)')
    t.close(sfft.ifftn_func(False)(x, None, ax), ref_fft(x, pos, True), rtol=tol(dt),
            msg='ifftn_func(False)')


@CHECK.sub(st.tuples(st.lists(cases(), min_size=2, max_size=4), st.booleans()).map(
    lambda p: dict(ops=p[0], thr=p[1])), quick=200)
def history(c, t):
    """Earlier transforms (and their cached plans) do not influence later
    ones, and results already returned are not overwritten by later calls."""
    outs = []
    xs = []
    for k, o in enumerate(c['ops']):
        x, axes, pos = setup(o)
        real = x.dtype.kind == 'f' and k % 2 == 0
        y = (sfft.rfftn if real else sfft.fftn)(x, o['s'], axes)
        outs.append((y, y.copy()))
        xs.append((x, o['s'], axes, real))
    x, s, axes, real = xs[0]
    # same operation on other data of the same shape, then repeat the first
    (sfft.rfftn if real else sfft.fftn)(x * 2 + 1, s, axes)
    y = (sfft.rfftn if real else sfft.fftn)(x, s, axes)
    t.nontrivial(np.any(x) and x.size > 1)
    t.close(y, outs[0][1], rtol=1e-6, msg='repeated transform')
    for a, b in outs:
        t.same(a, b, 'an earlier result was overwritten')
