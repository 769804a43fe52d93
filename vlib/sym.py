"""Symmetry transformations of generated problems.

Each transformation acts on a model of vlib.solvers / vlib.dupd / vlib.dlm and
returns (transformed model, map from coefficient arrays of the original to
those of the transformed problem, map for dictionary arrays).  All of them
are stated on the internal layouts (spatial axes, channel, signal, filter);
the external arrays of the transformed problem are rebuilt from those."""
import copy
import numpy as np
from vlib.csc import LAYOUTS


def roll(n, s):
    return lambda V: np.roll(V, s, axis=tuple(range(n)))


def perm_axes(n, pm):
    return lambda V: np.transpose(V, tuple(pm) + tuple(range(n, V.ndim)))


def insert(a):
    return lambda V: np.expand_dims(V, a)


def take(ax, pm):
    return lambda V: np.take(V, pm, axis=ax) if V.shape[ax] > 1 else V


def reverse(n):
    """Index negation modulo the size of every spatial axis."""
    return lambda V: np.roll(np.flip(V, tuple(range(n))), 1, axis=tuple(range(n)))


def chan_to_sig(n):
    def f(V):
        if V.shape[n] == 1 and V.shape[n + 1] == 1:
            return V
        if V.shape[n + 1] == 1:
            return np.swapaxes(V, n, n + 1)
        C, K = V.shape[n:n + 2]
        return V.reshape(V.shape[:n] + (1, C * K) + V.shape[n + 2:])
    return f


# -- sparse coding models -----------------------------------------------------------

def csc(m, fD=None, fS=None, fX=None, fg=None, fB=None, n=None, name=None, dimK='same'):
    """Rebuild a vlib.solvers model after transforming its internal arrays."""
    i = lambda V: V
    fD, fS, fX, fg = fD or i, fS or i, fX or i, fg or i
    q = copy.copy(m)
    p = q.p = copy.copy(m.p)
    n0 = m.n
    n = n0 if n is None else n
    name = m.p.lay['name'] if name is None else name
    dc, dk, kind = LAYOUTS[name]
    p.dimN = q.n = n
    p.Di = np.ascontiguousarray(fD(m.p.Di))
    p.Si = np.ascontiguousarray(fS(m.p.Si))
    p.Nv = p.Si.shape[:n]
    p.C, p.K, p.M = p.Si.shape[n], p.Si.shape[n + 1], p.Di.shape[-1]
    p.Cd = p.Di.shape[n]
    p.Cx = 1 if (kind == 'm' and p.C > 1) else p.C
    p.lay = dict(m.p.lay, name=name, dimN=n, C=p.C, K=p.K, M=p.M, Nv=list(p.Nv), fs=list(p.Di.shape[:n]))
    p._A = None
    if dimK != 'same':
        p.dimK = dimK
    if name == 'C1':
        p.dimK = 0
    p.D = p.Di.reshape(p.Di.shape[:n] + ((p.Cd,) if kind in 'md' else ()) + (p.M,)).copy()
    p.S = p.Si.reshape(p.Nv + ((p.C,) if dc else ()) + ((p.K,) if dk else ())).copy()
    p.D64, p.S64 = p.Di.astype(float), p.Si.astype(float)
    q.spax, q.n1 = tuple(range(n)), int(np.prod(p.Nv))
    q.shpX = p.shpX
    if m.B is not None:
        q.B = (fB or i)(m.B)
        q.shpX = p.Nv + (q.B.shape[1], p.K, p.M)
    if m.w.ndim:
        q.w = np.ascontiguousarray(fX(m.w))
    if m.W is not None:
        if m.W.ndim == n0:
            W = fS(m.W.reshape(m.p.Nv + (1, 1, 1)))
            q.W = np.ascontiguousarray(W.reshape(W.shape[:n])).copy()
        else:
            q.W = np.ascontiguousarray(fS(m.W))
    if m.l21 is not None:
        V = fX(m.l21.reshape(m.p.Nv + (1, m.p.K, m.p.M)))
        q.l21 = np.ascontiguousarray(V if m.l21.ndim == n0 + 3 else V.reshape(V.shape[:n] + V.shape[n + 1:]))
    if m.g is not None and m.g.ndim:
        q.g = fg(m.g)
    return q


# -- dictionary updates and dictionary learning ----------------------------------------

def _ext(Si, n, sC, sK):
    return np.ascontiguousarray(Si).reshape(Si.shape[:n] + ((Si.shape[n],) if sC else ()) + (
        (Si.shape[n + 1],) if sK else ())).copy()


def dup(m, fD=None, fS=None, fZ=None, n=None, spec=None, sC=None, sK=None):
    """Rebuild a convolutional vlib.dupd model."""
    i = lambda V: V
    fD, fS, fZ = fD or i, fS or i, fZ or i
    q = copy.copy(m)
    n0 = m.n
    n = q.n = n0 if n is None else n
    q.Z = np.ascontiguousarray(fZ(m.Z))
    q.Si = np.ascontiguousarray(fS(m.Si))
    q.Nv = q.Si.shape[:n]
    q.D0, q.Draw = (np.ascontiguousarray(fD(V.reshape(m.shpD))) for V in (m.D0, m.Draw))
    q.shpD, q.shpZ, q.shpS = q.D0.shape, q.Z.shape, q.Si.shape
    q.C, q.K, q.Cx = q.shpS[n], q.shpS[n + 1], q.shpZ[n]
    q.sC = m.sC if sC is None else sC
    q.sK = m.sK if sK is None else sK
    q.dimK = 1 if q.sK else 0
    q.S = _ext(q.Si, n, q.sC, q.sK)
    q.supp = np.ascontiguousarray(fD(m.supp))
    q.spec = m.spec if spec is None else spec
    if m.W is not None:
        if m.W.ndim == n0:
            W = fS(m.W.reshape(m.Nv + (1, 1, 1)))
            q.W = np.ascontiguousarray(W.reshape(W.shape[:n])).copy()
        else:
            q.W = np.ascontiguousarray(fS(m.W))
    for a in ('Wi', 'W2'):
        V = getattr(m, a)
        setattr(q, a, fS(V) if np.ndim(V) == n0 + 3 else V)
    return q


def dl(m, fD=None, fS=None, fX=None, n=None, fspec=None, sC=None, sK=None):
    """Rebuild a convolutional vlib.dlm model."""
    i = lambda V: V
    fD, fS, fX = fD or i, fS or i, fX or i
    q = copy.copy(m)
    n0 = m.n
    n = q.n = n0 if n is None else n
    q.Si = np.ascontiguousarray(fS(m.Si))
    q.Nv = q.Si.shape[:n]
    hasC = m.D0.ndim == n0 + 2
    D0 = fD(m.D0.reshape(m.D0.shape[:n0] + (m.Cd, 1, m.M)))
    q.D0 = np.ascontiguousarray(D0).reshape(D0.shape[:n] + ((m.Cd,) if hasC else ()) + (D0.shape[-1],)).copy()
    q.msz = D0.shape[:n]
    q.C, q.K = q.Si.shape[n:n + 2]
    q.Cx = 1 if m.Cd > 1 else q.C
    q.shpD, q.shpX, q.shpS = q.Nv + (m.Cd, 1, m.M), q.Nv + (q.Cx, q.K, m.M), q.Si.shape
    q.sC = m.sC if sC is None else sC
    q.sK = m.sK if sK is None else sK
    q.dimK = 1 if q.sK else 0
    q.S = _ext(q.Si, n, q.sC, q.sK)
    q.shpSx = q.S.shape
    if fspec is not None:
        q.spec = fspec(m.spec)
        q.dsz = None if m.dsz is None else q.spec
    if m.W is not None:
        if m.W.ndim == n0:
            W = fS(m.W.reshape(m.Nv + (1, 1, 1)))
            q.W = np.ascontiguousarray(W.reshape(W.shape[:n])).copy()
        else:
            q.W = np.ascontiguousarray(fS(m.W))
    for a in ('Wi', 'W2'):
        V = getattr(m, a)
        setattr(q, a, fS(V) if np.ndim(V) == n0 + 3 else V)
    if m.w.ndim:
        q.w = np.ascontiguousarray(fX(m.w))
    return q
