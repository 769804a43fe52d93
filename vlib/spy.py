"""Observation of what a solver is constructed from: records (and optionally
re-lays-out) every array handed to the outermost constructor call."""
import contextlib
import numpy as np
from sporco import common, cdict
from sporco.dictlrn import dictlrn
from sporco.admm import cbpdn


class Spy(object):

    def __init__(self):
        self.active, self.depth = False, 0
        self.layout, self.readonly, self.opt = 'C', False, None
        self.rec, self.opts, self.cls = [], [], None

    def leaf(self, name, v):
        if not isinstance(v, np.ndarray):
            return v
        w = relayout(v, self.layout)
        if self.readonly:
            w = w.view()
            w.flags.writeable = False
        self.rec.append((name, w, w.copy()))
        return w

    def walk(self, name, d):
        for k in list(d):
            v = d[k]
            if isinstance(v, dict):
                self.walk(name + '/' + str(k), v)
            elif isinstance(v, np.ndarray):
                dict.__setitem__(d, k, self.leaf(name + '/' + str(k), v))

    def enter(self, a, k):
        def one(name, v):
            if isinstance(v, cdict.ConstrainedDict):
                if self.opt is not None:
                    return self.opt
                self.opts.append(v)
                self.walk('opt', v)
                return v
            if isinstance(v, (tuple, list)) and any(isinstance(x, np.ndarray) for x in v):
                return type(v)(self.leaf('%s[%d]' % (name, i), x) for i, x in enumerate(v))
            return self.leaf(name, v)
        return [one('argument %d' % i, v) for i, v in enumerate(a)], {q: one(q, v) for q, v in k.items()}


SPY = Spy()


def relayout(v, how):
    """Same values, other memory layout."""
    if how == 'F':
        return np.array(v, order='F', copy=True)
    if how == 'strided':
        b = np.full(tuple(2 * s for s in v.shape), np.nan, dtype=v.dtype) if v.dtype.kind in 'fc' else np.zeros(tuple(2 * s for s in v.shape), v.dtype)
        b = b[tuple(slice(0, 2 * s, 2) for s in v.shape)]
        b[...] = v
        return b
    if how == 'neg':
        return np.ascontiguousarray(v[(slice(None, None, -1),) * v.ndim])[(slice(None, None, -1),) * v.ndim]
    if how == 'odd':
        b = np.zeros(v.size + 1, dtype=v.dtype)[1:].reshape(v.shape)
        b[...] = v
        return b
    return v


def _wrap(meta):
    orig = meta.__call__

    def __call__(cls, *a, **k):
        s = SPY
        if not s.active or s.depth:
            return orig(cls, *a, **k)
        s.depth += 1
        try:
            s.cls = cls
            a, k = s.enter(a, k)
            return orig(cls, *a, **k)
        finally:
            s.depth -= 1
    meta.__call__ = __call__


def _wrapinit(cls):
    orig = cls.__init__

    def __init__(self, *a, **k):
        s = SPY
        if not s.active or s.depth:
            return orig(self, *a, **k)
        s.depth += 1
        try:
            s.cls = cls
            a, k = s.enter(a, k)
            return orig(self, *a, **k)
        finally:
            s.depth -= 1
    cls.__init__ = __init__


_wrap(common._IterSolver_Meta)
_wrap(dictlrn._DictLearn_Meta)
_wrapinit(cbpdn.AddMaskSim)
_wrapinit(cbpdn.MultiDictConvBPDN)


@contextlib.contextmanager
def spying(layout='C', readonly=False, opt=None):
    """Within the block, outermost constructor calls receive arrays of the
    given layout (and the given options object, if any) and are recorded."""
    s = SPY
    s.active, s.depth, s.layout, s.readonly, s.opt = True, 0, layout, readonly, opt
    s.rec, s.opts = [], []
    try:
        yield s
    finally:
        s.active = False


class _Stop(Exception):
    pass


def capture(mk, *args):
    """Class, positional and keyword arguments of the outermost constructor
    call made by mk(*args); nothing is constructed."""
    with spying() as s:
        def enter(a, k):
            s.found = (s.cls, list(a), dict(k))
            raise _Stop
        s.enter = enter
        try:
            mk(*args)
        except _Stop:
            pass
        finally:
            del s.enter
    return s.found
