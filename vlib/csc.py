"""Generation of convolutional sparse coding problems in every documented
external layout, with the internal layout worked out here from the
documented convention (not taken from the code under test)."""
import numpy as np
import sporco.fft
from vlib.core import st, seeds, rng
from vlib import ref

sporco.fft.pyfftw_threads = 1

#  layout name -> (channels in S, signals in S, kind of dictionary)
LAYOUTS = {
    'plain': (0, 0, 's'),      # S: Nv             D: n.. M
    'K': (0, 1, 's'),          # S: Nv K           D: n.. M
    'C1': (1, 0, 's'),         # S: Nv C  dimK=0   D: n.. M
    'C1d': (1, 0, 'd'),        # S: Nv C           D: n.. 1 M
    'CK1': (1, 1, 's'),        # S: Nv C K         D: n.. M
    'CK1d': (1, 1, 'd'),       # S: Nv C K         D: n.. 1 M
    'Cm': (1, 0, 'm'),         # S: Nv C           D: n.. C M
    'CKm': (1, 1, 'm'),        # S: Nv C K         D: n.. C M
}


@st.composite
def layout(draw, names=tuple(LAYOUTS), dimNs=(1, 1, 2, 2, 2, 3), maxN=(10, 6, 4), maxf=(4, 3, 2), maxM=3,
           maxC=3, maxK=3, minN=1, fit=False):
    name = draw(st.sampled_from(list(names)))
    dimN = draw(st.sampled_from(list(dimNs)))
    Nv = [draw(st.integers(minN, maxN[dimN - 1])) for _ in range(dimN)]
    fs = [draw(st.integers(1, min(n, maxf[dimN - 1]))) for n in Nv]
    dc, dk, kind = LAYOUTS[name]
    C = draw(st.integers(1, maxC)) if dc else 1
    K = draw(st.integers(1, maxK)) if dk else 1
    M = draw(st.integers(1, maxM))
    dimK = None if draw(st.booleans()) else dk
    if name == 'C1':
        dimK = 0
    return dict(name=name, dimN=dimN, Nv=Nv, fs=fs, C=C, K=K, M=M, dimK=dimK)


class Prob(object):
    """Everything about one generated problem."""

    def __init__(self, lay, seed, dtype='float64', skind='normal', dkind='normal', lead=True):
        dc, dk, kind = LAYOUTS[lay['name']]
        self.lay = lay
        self.dimN = n = lay['dimN']
        self.Nv = tuple(lay['Nv'])
        self.C, self.K, self.M = lay['C'], lay['K'], lay['M']
        self.Cd = self.C if kind == 'm' else 1
        self.Cx = 1 if (kind == 'm' and self.C > 1) else self.C
        self.dimK = lay['dimK']
        self.dimC, self.dimKs = dc, dk
        rs = rng(seed, 3)
        fs = tuple(lay['fs'])
        Di = rs.randn(*(fs + (self.Cd, 1, self.M)))
        if dkind == 'smallint':
            Di = rs.randint(-2, 3, size=Di.shape).astype(float)
            Di[(0,) * n] += 0.5
        elif dkind == 'unit':
            Di /= np.sqrt(np.sum(Di**2, axis=tuple(range(n + 1)), keepdims=True))
        if skind == 'synth':
            X = rs.randn(*self.shpX) * (rs.rand(*self.shpX) < 0.3)
            Si = ref.synth(Di, X, n) + 0.05 * rs.randn(*self.shpS)
        elif skind == 'smallint':
            Si = rs.randint(-3, 4, size=self.shpS).astype(float)
        else:
            Si = rs.randn(*self.shpS)
        dt = np.dtype(dtype)
        self.Di = Di.astype(dt)                       # internal, support size
        self.Si = Si.astype(dt)                       # internal
        ext = fs + ((self.Cd,) if kind in 'md' else ()) + (self.M,)
        self.D = self.Di.reshape(ext).copy()
        self.S = self.Si.reshape(self.Nv + ((self.C,) if dc else ()) + ((self.K,) if dk else ())).copy()
        self.D64, self.S64 = self.Di.astype(float), self.Si.astype(float)
        self.dtype = dt

    @property
    def shpX(self):
        return self.Nv + (self.Cx, self.K, self.M)

    @property
    def shpS(self):
        return self.Nv + (self.C, self.K, 1)

    @property
    def kw(self):
        return dict(dimK=self.dimK, dimN=self.dimN)

    def synth(self, X):
        return ref.synth(self.D64, np.asarray(X, dtype=float), self.dimN)

    # -- dense forms: unknowns of one (channel-group, signal) pair -------------
    def matrix(self):
        """Matrix A with A @ vec_x = vec_s for one signal: unknowns ordered
        (spatial, m) per coefficient channel; rows (spatial[, channel])."""
        if getattr(self, '_A', None) is None:
            n = int(np.prod(self.Nv))
            sp = (slice(None),) * self.dimN
            blocks = []
            for c in range(self.Cd):
                blocks.append(np.concatenate([ref.convmat(self.D64[sp + (c, 0, m)], self.Nv)
                                              for m in range(self.M)], axis=1))
            self._A = np.concatenate(blocks, axis=0)      # (Cd*n, M*n)
            self._n = n
        return self._A

    def pack(self, X):
        """Internal X (Nv, Cx, K, M) -> (M*n, Cx*K)."""
        n = int(np.prod(self.Nv))
        v = np.asarray(X, dtype=float).reshape(n, self.Cx, self.K, self.M)
        return v.transpose(3, 0, 1, 2).reshape(self.M * n, self.Cx * self.K)

    def unpack(self, V):
        n = int(np.prod(self.Nv))
        return V.reshape(self.M, n, self.Cx, self.K).transpose(1, 2, 3, 0).reshape(self.shpX)

    def packS(self, S=None):
        """Internal S (Nv, C, K, 1) -> rows matching matrix(), columns Cx*K."""
        n = int(np.prod(self.Nv))
        S = self.S64 if S is None else np.asarray(S, dtype=float)
        v = S.reshape(n, self.C, self.K)
        if self.Cd > 1:
            return v.transpose(1, 0, 2).reshape(self.Cd * n, self.K)
        return v.reshape(n, self.C * self.K)

    def lmax(self):
        return max(np.abs(self.matrix().T @ self.packS()).max(), 1e-3)

    def lip(self):
        return max(np.linalg.norm(self.matrix(), 2)**2, 1e-6)


prob_extra = st.fixed_dictionaries({'seed': seeds(),
                                    'skind': st.sampled_from(['normal', 'synth', 'smallint']),
                                    'dkind': st.sampled_from(['normal', 'unit', 'smallint'])})
