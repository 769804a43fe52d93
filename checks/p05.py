"""P05: array block, window and record utilities."""
import io
import collections
import itertools
import numpy as np
from vlib.core import Check, st, arrspec, mkarr, rng
import sporco.array as sa

CHECK = Check(
    'P05', scale=3,
    rule='arrays of 1-4 axes (sizes 1-7), contiguous, transposed, strided or reversed views, block/window '
         'sizes up to the array size, steps up to the block size and beyond, given as one array or a tuple '
         'of arrays; non-trivial = more than one block/window or a non-scalar result',
    assumptions=['floating-point arrays for block averaging (division is not defined otherwise)',
                 'blocks no larger than the array; combine statistic checked on covered samples'])

KIND = ('normal', 'smallint', 'sparse', 'big', 'const')
DT = st.sampled_from(['float64', 'float64', 'float32', 'complex128'])
VIEW = st.sampled_from(['plain', 'plain', 'T', 'step', 'rev', 'F'])


def view(x, how):
    """Same values and shape, other memory layout."""
    if how == 'T':
        return np.ascontiguousarray(x.T).T
    if how == 'F':
        return np.asfortranarray(x)
    if how == 'step':
        y = np.zeros(tuple(2 * n for n in x.shape), x.dtype)
        v = y[tuple(slice(None, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if how == 'rev':
        r = tuple(slice(None, None, -1) for _ in x.shape)
        return np.ascontiguousarray(x[r])[r]
    return x


@st.composite
def blkcases(draw, tup=True):
    nb = draw(st.integers(1, 3))
    ex = draw(st.integers(0, 2 if nb < 3 else 1))
    mx = [7, 6, 4][nb - 1]
    shape = [draw(st.integers(1, mx)) for _ in range(nb)]
    blk = [draw(st.integers(1, n)) for n in shape]
    stp = draw(st.one_of(st.none(), st.just([1] * nb),
                         st.tuples(*[st.integers(1, 4) for _ in range(nb)]).map(list)))
    extra = [draw(st.integers(1, 3)) for _ in range(ex)]
    return dict(shape=shape, extra=extra, blk=blk, stp=stp, a=draw(arrspec(KIND)), dt=draw(DT),
                view=draw(VIEW), tup=draw(st.integers(0, 3)) if tup else 0,
                fn=draw(st.sampled_from(['median', 'mean', 'min', 'max', 'default'])))


def blockpos(c, shape):
    stp = c['stp'] or [1] * len(c['blk'])
    return list(itertools.product(*(
        [range(0, n - b + 1, s) for n, b, s in zip(shape, c['blk'], stp)] +
        [range(n) for n in shape[len(c['blk']):]])))


def blkidx(c, pos):
    nb = len(c['blk'])
    return tuple(slice(p, p + b) for p, b in zip(pos, c['blk'])) + tuple(pos[nb:])


@CHECK.sub(blkcases(), quick=1500, shards=2)
def extract(c, t):
    """extract_blocks gives x[p:p+b, ...] in row-major order of positions."""
    x = mkarr(c['a'], c['shape'] + c['extra'], c['dt'])
    if c['tup']:
        parts = [mkarr(c['a'], c['shape'], c['dt'], salt=k) for k in range(c['tup'])]
        arg = tuple(view(p, c['view']) for p in parts)
        x = np.stack(parts, axis=-1)
    else:
        arg = view(x, c['view'])
    keep = [p.copy() for p in arg] if c['tup'] else arg.copy()
    stp = None if c['stp'] is None else tuple(c['stp'])
    if c['stp'] is None and c['fn'] == 'min':
        b = sa.extract_blocks(arg, tuple(c['blk']))
    else:
        b = sa.extract_blocks(arg, tuple(c['blk']), stp)
    pos = blockpos(c, x.shape)
    t.nontrivial(len(pos) > 1 and x.size > 1)
    t.label('tuple', bool(c['tup']))
    t.label('steps', bool(c['stp']) and max(c['stp']) > 1)
    t.eq(b.shape, tuple(c['blk']) + (len(pos),), 'shape of blocks')
    t.eq(b.dtype, x.dtype, 'dtype')
    for k, p in enumerate(pos):
        t.same(b[..., k], x[blkidx(c, p)], 'block %d at %s' % (k, list(p)))
    for p, q in zip(keep, arg) if c['tup'] else [(keep, arg)]:
        t.same(q, p, 'input modified')


@CHECK.sub(blkcases(tup=False), quick=1500, shards=2)
def recombine(c, t):
    """average_blocks / combine_blocks: each covered sample is the mean /
    statistic of the block entries covering it, uncovered ones are NaN."""
    x = mkarr(c['a'], c['shape'] + c['extra'], c['dt'])
    stp = None if c['stp'] is None else tuple(c['stp'])
    pos = blockpos(c, x.shape)
    blks0 = np.asarray(mkarr(c['a'], tuple(c['blk']) + (len(pos),), c['dt'], salt=5))
    lists = np.empty(x.shape, dtype=object)
    for i in np.ndindex(*x.shape):
        lists[i] = []
    for k, p in enumerate(pos):
        for o in np.ndindex(*c['blk']):
            lists[tuple(a + b for a, b in zip(p, o)) + tuple(p[len(c['blk']):])].append(
                blks0[o + (k,)])
    cov = np.vectorize(len, otypes=[int])(lists) > 0
    t.nontrivial(len(pos) > 1)
    t.label('uncovered', not cov.all())
    t.label('overlap', np.vectorize(len, otypes=[int])(lists).max() > 1)
    rt = 1e-4 if c['dt'] == 'float32' else 1e-10
    src = sa.extract_blocks(x, tuple(c['blk']), stp)
    ref = np.full(x.shape, np.nan, dtype=np.result_type(x.dtype, float))
    for i in zip(*np.nonzero(cov)):
        ref[i] = np.mean(np.asarray(lists[i], dtype=ref.dtype))
    for data, want in ((blks0, ref), (src, np.where(cov, x, np.nan))):
        d0 = data.copy()
        y = sa.average_blocks(view(data, c['view']), tuple(x.shape), stp)
        t.same(data, d0, 'blocks modified')
        t.eq(y.shape, x.shape, 'shape of average_blocks')
        t.check(np.all(np.isnan(y) == ~cov), 'average_blocks: NaN exactly on uncovered samples')
        t.close(y[cov], want[cov], rtol=rt, msg='average_blocks')
        t.eq(y.dtype, data.dtype, 'average_blocks dtype')
    if not cov.all() or x.dtype.kind == 'c':
        return
    fns = dict(median=np.median, mean=np.mean, min=np.min, max=np.max)
    f = fns.get(c['fn'], np.median)
    want = np.zeros(x.shape)
    for i in np.ndindex(*x.shape):
        want[i] = f(np.asarray(lists[i], dtype=float))
    for data, w in ((blks0, want), (src, x)):
        d0 = data.copy()
        if c['fn'] == 'default':
            y = sa.combine_blocks(data, tuple(x.shape), stp)
        else:
            y = sa.combine_blocks(data, tuple(x.shape), stp, f)
        t.same(data, d0, 'blocks modified')
        t.close(y, w, rtol=rt, msg='combine_blocks(%s)' % c['fn'])
        t.eq(y.dtype, data.dtype, 'combine_blocks dtype')
    t.label('combined')


@st.composite
def wincases(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, [8, 6, 4][nd - 1])) for _ in range(nd)]
    wsz = [draw(st.integers(1, n)) for n in shape]
    wnm = None
    if draw(st.booleans()):
        wnm = [draw(st.integers(1, n + 2)) for n in shape]
    return dict(shape=shape, wsz=wsz, wnm=wnm, a=draw(arrspec(KIND)), dt=draw(DT), view=draw(VIEW),
                pad=draw(st.sampled_from(['wrap', None, 'edge', 'symmetric', 'constant'])))


@CHECK.sub(wincases(), quick=1200, shards=2)
def window(c, t):
    """rolling_window[o, p] == (padded x)[p + o]."""
    x0 = mkarr(c['a'], c['shape'], c['dt'])
    x = view(x0, c['view'])
    kw = {} if c['pad'] is None else dict(pad=c['pad'])
    wsz = tuple(c['wsz'])
    if c['wnm'] is None:
        y = sa.rolling_window(x, wsz)
        wnm = tuple(n - w + 1 for n, w in zip(x.shape, wsz))
    else:
        wnm = tuple(c['wnm'])
        y = sa.rolling_window(x, wsz, wnm, **kw)
    t.same(x, x0, 'input modified')
    t.eq(tuple(y.shape), wsz + wnm, 'shape')
    need = [w + n - 1 for w, n in zip(wsz, wnm)]
    xp = np.pad(x0, [(0, max(0, m - n)) for m, n in zip(need, x0.shape)], mode=c['pad'] or 'wrap') \
        if any(m > n for m, n in zip(need, x0.shape)) else x0
    t.label('padded', xp is not x0)
    t.nontrivial(np.prod(wnm) > 1 and np.prod(wsz) > 1)
    for p in np.ndindex(*wnm):
        t.same(y[(Ellipsis,) + p], xp[tuple(slice(a, a + w) for a, w in zip(p, wsz))],
               'window at %s' % (p,))


@st.composite
def subcases(draw):
    nd = draw(st.integers(1, 3))
    shape = [draw(st.integers(1, [9, 7, 5][nd - 1])) for _ in range(nd)]
    step = [draw(st.integers(1, n)) for n in shape]
    return dict(shape=shape, step=step, a=draw(arrspec(KIND)), dt=draw(DT), view=draw(VIEW),
                over=draw(st.integers(0, 9)), pad=draw(st.booleans()),
                mode=draw(st.sampled_from([None, 'reflect', 'wrap', 'constant', 'edge'])))


@CHECK.sub(subcases(), quick=900)
def subsample(c, t):
    """subsample_array[o, k] == (padded x)[k*step + o]; too large a step is
    rejected."""
    x0 = mkarr(c['a'], c['shape'], c['dt'])
    x = view(x0, c['view'])
    step = tuple(c['step'])
    if c['over'] == 0:
        bad = (x.shape[0] + 1,) + step[1:]
        t.label('oversize step')
        try:
            sa.subsample_array(x, bad, pad=c['pad'])
        except ValueError:
            return
        t.check(False, 'step larger than the array was accepted')
    kw = {} if c['mode'] is None else dict(mode=c['mode'])
    y = sa.subsample_array(x, step, c['pad'], **kw)
    t.same(x, x0, 'input modified')
    xp = x0
    if c['pad'] and any(n % s for n, s in zip(x.shape, step)):
        xp = np.pad(x0, [(0, (-n) % s) for n, s in zip(x.shape, step)], mode=c['mode'] or 'reflect')
        t.label('padded')
    num = tuple(n // s for n, s in zip(xp.shape, step))
    t.eq(tuple(y.shape), step + num, 'shape')
    t.nontrivial(np.prod(step) > 1 and np.prod(num) > 1)
    for o in np.ndindex(*step):
        want = xp[tuple(slice(a, None, s) for a, s in zip(o, step))]
        t.same(y[o], want[tuple(slice(0, n) for n in num)], 'offset %s' % (o,))


@st.composite
def misccases(draw):
    shape = draw(st.lists(st.integers(1, 5), min_size=1, max_size=4))
    return dict(shape=shape, a=draw(arrspec(KIND)), b=draw(arrspec(('sparse', 'smallint', 'zeros', 'normal'))),
                dt=draw(DT), view=draw(VIEW), ax=draw(st.integers(0, len(shape) - 1)),
                pd=[draw(st.integers(0, 3)), draw(st.integers(0, 3))], n=draw(st.integers(1, 6)),
                neg=draw(st.booleans()), bc=draw(st.booleans()),
                bexp=draw(st.sampled_from([0, 0, 0, -12, -40, -140, -500, 60])))


@CHECK.sub(misccases(), quick=900)
def misc(c, t):
    """zpad, zdivide, atleast_nd, split."""
    x0 = mkarr(c['a'], c['shape'], c['dt'])
    x = view(x0, c['view'])
    ax = c['ax']
    t.nontrivial(x.size > 1 and np.any(x))
    y = sa.zpad(x, tuple(c['pd']), ax)
    pre, post = c['pd']
    t.eq(y.shape, tuple(n + (pre + post if k == ax else 0) for k, n in enumerate(x.shape)), 'zpad shape')
    t.eq(y.dtype, x.dtype, 'zpad dtype')
    inner = (slice(None),) * ax + (slice(pre, pre + x.shape[ax]),)
    t.same(y[inner], x0, 'zpad content')
    y = np.array(y)
    y[inner] = 0
    t.check(not np.any(y), 'zpad adds non-zero samples')

    bsh = [1 if (c['bc'] and k == ax) else n for k, n in enumerate(x.shape)]
    b = mkarr(c['b'], bsh, c['dt'], salt=2)
    # divisors of any magnitude whose quotients are representable
    bexp = c['bexp'] if c['dt'] in ('float64', 'complex128') else max(c['bexp'], -40)
    if c['a']['kind'] != 'big' or bexp >= -40:
        b *= b.dtype.type(2.0 ** bexp)
        t.label('tiny divisors', bexp < -100)
    b0 = b.copy()
    q = sa.zdivide(x, b)
    bb = np.broadcast_to(b0, x.shape)
    z = bb == 0
    t.label('zero divisors', z.any())
    t.eq(q.shape, x.shape, 'zdivide shape')
    t.check(not np.any(q[z]), 'zdivide not zero where the denominator is zero')
    t.close(q[~z] * bb[~z], x0[~z], rtol=1e-4 if c['dt'] == 'float32' else 1e-10, msg='zdivide')
    t.same(b, b0, 'denominator modified')

    z = sa.atleast_nd(c['n'], x)
    t.eq(z.shape, x.shape + (1,) * max(0, c['n'] - x.ndim), 'atleast_nd shape')
    t.same(np.reshape(z, x.shape), x0, 'atleast_nd content')

    a = ax - x.ndim if c['neg'] else ax
    parts = sa.split(x, a) if (ax or c['neg']) else sa.split(x)
    t.eq(len(parts), x.shape[ax], 'split count')
    for k, p in enumerate(parts):
        t.same(p, np.take(x0, k, axis=ax), 'split part %d' % k)
    t.same(x, x0, 'input modified')


@CHECK.sub(st.fixed_dictionaries(dict(
    shape=st.lists(st.integers(1, 4), min_size=1, max_size=3), a=arrspec(('normal', 'smallint')),
    dt=st.sampled_from(['float16', 'float16', 'float32', 'float64', 'complex64', 'int32', 'uint8']),
    mode=st.sampled_from(['none', 'one', 'tuple', 'args']))), quick=500)
def promote(c, t):
    """promote16: only half precision is promoted, results come back in the
    input's type, fn sees the promoted array and its own arguments."""
    u = mkarr(dict(c['a'], kind='smallint') if c['dt'] in ('int32', 'uint8') else c['a'],
              c['shape'], 'float64').astype(c['dt']) if c['dt'] != 'complex64' else \
        mkarr(c['a'], c['shape'], c['dt'])
    u0 = u.copy()
    dt = np.dtype(c['dt'])
    up = np.dtype('float32') if c['dt'] == 'float16' else dt
    t.nontrivial(c['dt'] == 'float16' or c['mode'] != 'none')
    if c['mode'] == 'none':
        v = sa.promote16(u)
        t.eq(v.dtype, up, 'promoted dtype')
        t.same(v, u0.astype(up), 'values')
        return
    seen = []

    def fn(a, b=1, c=0):
        seen.append((a.dtype, a.shape, b, c))
        if t_mode == 'tuple':
            return a * b + c, a + b + c
        return a * b + c
    t_mode = c['mode']
    if t_mode == 'args':
        v = sa.promote16(u, fn, 2, c=1)
        want = u0.astype(up) * 2 + 1
    elif t_mode == 'one':
        v = sa.promote16(u, fn=fn)
        want = u0.astype(up)
    else:
        v = sa.promote16(u, fn, 3)
        want = (u0.astype(up) * 3, u0.astype(up) + 3)
    t.eq(seen[0][0], up, 'dtype seen by fn')
    if t_mode == 'tuple':
        t.check(isinstance(v, tuple) and len(v) == 2, 'tuple result')
    for a, w in zip(v, want) if t_mode == 'tuple' else [(v, want)]:
        t.eq(a.dtype, dt, 'result dtype')
        t.same(a, np.asarray(w).astype(dt), 'result values')
    t.same(u, u0, 'input modified')


VAL = st.one_of(st.integers(-10**6, 10**12), st.floats(allow_nan=False, allow_infinity=False, width=64),
                st.booleans(), st.none(), st.text(alphabet='abc', max_size=3),
                st.lists(st.floats(-5, 5), max_size=4))


@st.composite
def ntcases(draw):
    n = draw(st.integers(1, 6))
    m = draw(st.integers(0, 4))
    homog = draw(st.booleans())
    v = st.integers(-100, 100) if homog else VAL
    return dict(n=n, rows=[[draw(v) for _ in range(n)] for _ in range(m)], one=[draw(v) for _ in range(n)],
                name=draw(st.sampled_from(['NT', 'IterationStats', 'A', 'ab'])),
                arr=draw(st.integers(0, 3)))


@CHECK.sub(ntcases(), quick=600)
def records(c, t):
    """ntpl2array/array2ntpl round trip (also through savez); transposition
    of a list of namedtuples."""
    flds = ['F%d' % k for k in range(c['n'])]
    cls = collections.namedtuple(c['name'], flds)
    vals = list(c['one'])
    if c['arr'] == 1:
        vals = [np.arange(k + 2.0) for k in range(c['n'])]
    if c['arr'] == 2:
        vals = [np.arange(3.0) + k for k in range(c['n'])]

    def equal(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return np.array_equal(a, b)
        return a == b
    nt = cls(*vals)
    arr = sa.ntpl2array(nt)
    f = io.BytesIO()
    np.savez(f, a=arr)
    f.seek(0)
    arr2 = np.load(f, allow_pickle=True)['a']
    t.nontrivial(c['n'] > 1)
    for a in (arr, arr2):
        r = sa.array2ntpl(a)
        t.eq(tuple(r._fields), tuple(flds), 'fields')
        t.eq(r.__class__.__name__, c['name'], 'record name')
        t.eq(len(r), len(nt), 'number of entries')
        for k in range(c['n']):
            t.check(equal(r[k], nt[k]), 'entry %d: %r, expected %r', k, r[k], nt[k])
    lst = [cls(*r) for r in c['rows']]
    tr = sa.transpose_ntpl_list(lst)
    if not lst:
        t.check(tr is None, 'transpose of an empty list')
        return
    t.eq(tuple(tr._fields), tuple(flds), 'transposed fields')
    t.eq(tr.__class__.__name__, c['name'], 'transposed name')
    for k in range(c['n']):
        t.eq(list(tr[k]), [r[k] for r in c['rows']], 'column %d' % k)


@CHECK.sub(blkcases(), quick=300)
def renamed(c, t):
    """The deprecated names in sporco.util are the functions of sporco.array."""
    import warnings
    from sporco import util
    x = mkarr(c['a'], tuple(c['shape']), 'float64')
    blk, stp = tuple(c['blk']), None if c['stp'] is None else tuple(c['stp'])
    q = collections.namedtuple('NT', 'a, b')
    e = sa.extract_blocks(x, blk, stp)
    nt = [q(*p) for p in zip(x.ravel().tolist(), range(x.size))]
    calls = [('extract_blocks', (x, blk, stp), {}), ('average_blocks', (e, x.shape, stp), {}),
             ('combine_blocks', (e, x.shape, stp), {'fn': np.mean}),
             ('rolling_window', (x, blk), {'wnm': None}),
             ('subsample_array', (x, tuple(min(2, n) for n in x.shape)), {'pad': True, 'mode': 'edge'}),
             ('ntpl2array', (q(*nt[0]),), {}), ('array2ntpl', (sa.ntpl2array(q(*nt[0])),), {}), ('transpose_ntpl_list', (nt,), {})]
    for f, a, k in calls:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            y = getattr(util, f)(*a, **k)
        t.check(any(issubclass(v.category, DeprecationWarning) for v in w), 'util.%s: no deprecation warning', f)
        z = getattr(sa, f)(*a, **k)
        if isinstance(z, np.ndarray):
            if z.dtype == object:
                t.check(repr(y) == repr(z), 'util.%s', f)
            else:
                t.same(np.asarray(y), z, 'util.%s' % f)
        else:
            t.check(repr(y) == repr(z), 'util.%s: %s against %s', f, y, z)
    t.nontrivial(x.size > 1)
