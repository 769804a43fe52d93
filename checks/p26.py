"""P26: dictionary tiling, image access, download with retry."""
import os
import io
import json
import shutil
import socket
import tempfile
import urllib.request
import urllib.error
import email.message
import numpy as np
import scipy.ndimage
import imageio.v3 as iio
from vlib.core import Check, st, seeds, rng, SCRATCH
from vlib import dsz
from sporco import util

CHECK = Check('P26', scale=4, rule='tiling: at least two atoms; images: an option other than the defaults; download: at '
              'least one injected failure',
              assumptions=['dictionaries with at least two distinct values', 'images written with imageio as 8-bit PNG',
                           'network faults injected through an installed urllib opener; failures other than '
                           'time-outs are documented only as an error and must be reported as URLError'])


# -- tiling -------------------------------------------------------------------

@CHECK.sub(st.fixed_dictionaries({
    'seed': seeds(), 'r': st.integers(1, 6), 'c': st.integers(1, 6), 'ch': st.sampled_from([0, 0, 1, 2, 3]),
    'n': st.integers(1, 20), 'mode': st.sampled_from(['plain', 'matrix', 'multi', 'multi']),
    'groups': st.lists(st.tuples(st.integers(1, 6), st.integers(1, 6), st.integers(1, 5)), min_size=1, max_size=3),
    'f32': st.booleans(), 'off': st.sampled_from([0.0, 5.0, -5.0])}), quick=500, shards=2)
def tile(case, t):
    rs = rng(case['seed'])
    ch = case['ch']
    if case['mode'] == 'multi':
        gr = case['groups']
        N = sum(g[2] for g in gr)
        R, C = max(g[0] for g in gr), max(g[1] for g in gr)
        sizes = [g[:2] for g in gr for _ in range(g[2])]
    else:
        N, R, C = case['n'], case['r'], case['c']
        sizes = [(R, C)] * N
    D = np.zeros((R, C) + ((ch,) if ch else ()) + (N,))
    for k, (a, b) in enumerate(sizes):
        D[:a, :b, ..., k] = case['off'] + rs.randn(*((a, b) + ((ch,) if ch else ())))
    if case['f32']:
        D = D.astype(np.float32)
    if D.max() == D.min():
        t.skip('constant dictionary')
    D0 = D.copy()
    if case['mode'] == 'matrix':
        im = util.tiledict(D.reshape(-1, N), sz=D.shape[:-1])
    elif case['mode'] == 'multi':
        im = util.tiledict(D, sz=tuple(tuple(g[:2]) + ((ch,) if ch else ()) + (g[2],) for g in case['groups']))
    else:
        im = util.tiledict(D)
    t.same(D, D0, 'dictionary modified')
    S = (D0.astype(float) - D0.min()) / (float(D0.max()) - float(D0.min()))
    nd = 3 if ch else 2
    t.check(im.ndim == nd and (not ch or im.shape[2] == ch), 'image shape %s for dictionary %s', im.shape, D.shape)
    t.check(np.isfinite(im).all() and im.min() >= 0 and im.max() <= 1 + 1e-6, 'values outside [0, 1]')
    # cells of R x C separated by one pixel, filled row by row
    nr, rr = divmod(im.shape[0] + 1, R + 1)
    nc, rc = divmod(im.shape[1] + 1, C + 1)
    t.check(rr == 0 and rc == 0, 'image size %s is not a grid of %dx%d cells', im.shape, R, C)
    t.check(nr * nc >= N, '%d cells for %d atoms', nr * nc, N)
    used = np.zeros(im.shape[:2], dtype=bool)
    for k, (a, b) in enumerate(sizes):
        i, j = divmod(k, nc)
        r0, c0 = i * (R + 1), j * (C + 1)
        t.close(im[r0:r0 + a, c0:c0 + b], S[:a, :b, ..., k], rtol=1e-5, msg='atom %d' % k)
        used[r0:r0 + a, c0:c0 + b] = True
    t.check(np.all(im[~used] == 1), 'background is not uniform')
    t.nontrivial(N > 1)
    t.label(case['mode'] + str(nd))


# -- example images ---------------------------------------------------------------

imopt = st.fixed_dictionaries({
    'scaled': st.sampled_from([None, True, False]),
    'dtype': st.sampled_from([None, 'uint8', 'float32', 'float64', 'int16']),
    'zoom': st.sampled_from([None, None, 0.5, 2.0, 1.5]),
    'gray': st.sampled_from([None, True, False])})


@CHECK.sub(st.fixed_dictionaries({
    'seed': seeds(), 'ctor': imopt, 'call': imopt,
    'files': st.lists(st.fixed_dictionaries({'grp': st.sampled_from(['', 'g1', 'g2', 'g1/sub']),
                                             'rgb': st.sampled_from([0, 0, 3, 3, 4]), 'r': st.integers(4, 9), 'c': st.integers(4, 9)}),
                      min_size=1, max_size=4),
    'pick': st.integers(0, 3), 'asgroup': st.booleans(),
    'crop': st.sampled_from([None, [0, 3, 0, 3], [1, -1, 0, 4], [0, 4, 2, None]])}), quick=250, shards=4)
def images(case, t):
    rs = rng(case['seed'])
    d = tempfile.mkdtemp(prefix='img_', dir=SCRATCH)
    try:
        data = []
        for i, f in enumerate(case['files']):
            a = rs.randint(0, 256, size=(f['r'], f['c']) + ((int(f['rgb']),) if f['rgb'] else ())).astype(np.uint8)
            os.makedirs(os.path.join(d, f['grp']), exist_ok=True)
            p = os.path.join(f['grp'], 'im%d.png' % i)
            iio.imwrite(os.path.join(d, p), a)
            data.append((p, f['grp'], a))
        with open(os.path.join(d, 'notes.txt'), 'w') as fh:
            fh.write('not an image')

        def kw(o):
            k = {x: o[x] for x in ('scaled', 'zoom', 'gray') if o[x] is not None}
            if o['dtype'] is not None:
                k['dtype'] = np.dtype(o['dtype']).type
            return k
        ei = util.ExampleImages(pth=d, **kw(case['ctor']))
        t.eq(sorted(ei.images()), sorted(p for p, _, _ in data), 'images()')
        t.eq(sorted(ei.groups()), sorted(set(g for _, g, _ in data)), 'groups()')
        for g in ei.groups():
            t.eq(sorted(ei.groupimages(g)), sorted(p for p, q, _ in data if q == g), 'groupimages(%r)' % g)
        p, g, a = data[case['pick'] % len(data)]
        c, k = case['ctor'], case['call']
        eff = {x: k[x] if k[x] is not None else c[x] for x in c}
        args = kw(k)
        crop = case['crop']
        if crop is not None:
            args['idxexp'] = (slice(crop[0], crop[1]), slice(crop[2], crop[3]))
        if a.ndim == 3 and a.shape[2] == 4 and eff['gray']:
            # grey conversion is defined for red, green, blue images
            args['gray'] = eff['gray'] = False
        t.label('%d axes, %d channels' % (a.ndim, a.shape[2] if a.ndim > 2 else 1))
        if case['asgroup']:
            im = ei.image(os.path.basename(p), group=g, **args)
        else:
            im = ei.image(p, **args)
        dt = np.dtype(eff['dtype'] or 'uint8')
        if eff['scaled'] and dt.kind in 'iu':
            dt = np.dtype('float32')
        r = a.astype(dt)
        if eff['scaled']:
            r = (r / dt.type(255)).astype(dt)
        if crop is not None:
            r = r[crop[0]:crop[1], crop[2]:crop[3]]
        if eff['zoom'] is not None:
            r = scipy.ndimage.zoom(r, (eff['zoom'],) * 2 + (1,) * (r.ndim - 2))
        rt = 1e-5
        if eff['gray'] and r.ndim == 3:
            q = r.astype(float)
            r = 0.299 * q[..., 0] + 0.587 * q[..., 1] + 0.114 * q[..., 2]
            if dt.kind in 'iu':
                t.check(im.shape == r.shape and np.abs(im.astype(float) - r).max() <= 1.0, 'grey image')
                im = r = np.zeros(1)
            t.label('gray')
        t.close(im, r, rtol=rt, msg='image values')
        if im.size > 1:
            t.check(im.dtype == dt, 'dtype %s, expected %s', im.dtype, dt)
        try:
            ei.image('absent.png')
            t.check(False, 'missing image did not raise')
        except IOError:
            pass
    finally:
        shutil.rmtree(d, ignore_errors=True)
    t.nontrivial(any(v is not None for v in eff.values()) or crop is not None)


# -- download ---------------------------------------------------------------------

class Resp(object):
    def __init__(self, script):
        self.script = script
        self.status = self.code = 200
        self.pos = 0

    def read(self, n=-1):
        if isinstance(self.script, Exception):
            raise self.script
        b = self.script[self.pos:] if n is None or n < 0 else self.script[self.pos:self.pos + n]
        self.pos += len(b)
        return b

    def info(self):
        return email.message.Message()
    headers = property(info)

    def geturl(self):
        return 'verif://x'

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Handler(urllib.request.BaseHandler):
    def __init__(self, plan):
        self.plan = plan
        self.n = 0
        self.timeouts = []

    def verif_open(self, req):
        k = self.plan[self.n] if self.n < len(self.plan) else 'refused'
        self.n += 1
        self.timeouts.append(req.timeout)
        if k == 'timeout':
            raise urllib.error.URLError(socket.timeout('timed out'))
        if k == 'readtimeout':
            return Resp(socket.timeout('timed out'))
        if k == 'refused':
            raise urllib.error.URLError(ConnectionRefusedError(111, 'refused'))
        if k == 'http404':
            raise urllib.error.HTTPError('verif://x', 404, 'Not Found', email.message.Message(), io.BytesIO(b''))
        if k == 'http500':
            raise urllib.error.HTTPError('verif://x', 500, 'Oops', email.message.Message(), io.BytesIO(b''))
        if k == 'dns':
            raise urllib.error.URLError(socket.gaierror(-2, 'Name or service not known'))
        return Resp(bytes(k))


@CHECK.sub(st.fixed_dictionaries({
    'plan': st.lists(st.sampled_from(['timeout', 'timeout', 'readtimeout', 'timeout', 'refused', 'http404', 'http500',
                                      'dns', 'ok', 'ok']), min_size=0, max_size=7),
    'data': st.binary(max_size=40).map(list), 'maxtry': st.sampled_from([None, 1, 2, 3, 4, 6]),
    'timeout': st.sampled_from([None, 1, 5])}), quick=600, shards=2)
def download(case, t):
    plan = [list(case['data']) if k == 'ok' else k for k in case['plan']]
    mt = 3 if case['maxtry'] is None else case['maxtry']
    plan = plan + [list(case['data'])]
    h = Handler(plan)
    op = urllib.request.OpenerDirector()
    op.add_handler(h)
    kw = {}
    if case['maxtry'] is not None:
        kw['maxtry'] = mt
    if case['timeout'] is not None:
        kw['timeout'] = case['timeout']
    # expected outcome
    exp, used = None, 0
    for k in plan[:mt]:
        used += 1
        if isinstance(k, list):
            exp = ('ok', bytes(k))
            break
        if k not in ('timeout', 'readtimeout'):
            exp = ('error', k)
            break
    else:
        exp = ('exhausted', None)
    saved = urllib.request._opener
    urllib.request.install_opener(op)
    try:
        try:
            r = util.netgetdata('verif://host/file', **kw)
            got = ('ok', r.read())
        except urllib.error.URLError as e:
            got = ('error', type(e).__name__)
    finally:
        urllib.request.install_opener(saved)
    if exp[0] == 'ok':
        t.check(got[0] == 'ok', 'download failed although attempt %d of %d succeeds: %s', used, mt, plan)
        t.check(got[1] == exp[1], 'content %r, served %r', got[1], exp[1])
    else:
        t.check(got[0] == 'error', 'no error although %s', plan[:mt])
    t.check(h.n == used, '%d attempts, expected %d (limit %d) for %s', h.n, used, mt, plan)
    for x in h.timeouts:
        t.check(x == (10 if case['timeout'] is None else case['timeout']), 'time-out %r passed on', x)
    t.label(exp[0])
    t.nontrivial(used > 1 or exp[0] != 'ok')


@CHECK.sub(st.fixed_dictionaries({'m': st.integers(-3, 0)}), quick=4)
def download_no_attempts(case, t):
    try:
        util.netgetdata('verif://x', maxtry=case['m'])
    except (ValueError, urllib.error.URLError):
        t.nontrivial(True)
        return
    t.check(False, 'maxtry=%d returned data', case['m'])


@CHECK.sub(st.fixed_dictionaries({'k': st.integers(0, 100)}), quick=20)
def bundled(case, t):
    """Bundled dictionaries are finite, and fresh copies on each call."""
    a = util.convdicts()
    names = sorted(a)
    n = names[case['k'] % len(names)]
    D = a[n]
    shp = tuple(int(x) for x in n.split(':')[-1].replace(',', 'x').split('x')[:D.ndim]) if ':' in n else D.shape
    t.finite(D, n)
    if all(s > 0 for s in shp) and len(shp) == D.ndim and ',' not in n:
        t.check(D.shape == shp, 'dictionary %s has shape %s', n, D.shape)
    E = D.copy()
    D[...] = 0
    t.same(util.convdicts()[n], E, 'second access to %s' % n)
    t.nontrivial(True)
