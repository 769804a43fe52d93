"""Generation and independent interpretation of dictionary size
specifications (the formats documented for convolutional dictionaries)."""
import numpy as np
from vlib.core import st


@st.composite
def dsz_spec(draw, dimN=None, maxsz=4, maxM=3, maxC=3, forms='ABCDE'):
    """dict(dimN, Nv, form, spec(list), C, M); spec uses nested lists."""
    if dimN is None:
        dimN = draw(st.sampled_from([1, 2, 2, 2, 3]))
    form = draw(st.sampled_from(list(forms)))
    mx = maxsz if dimN < 3 else min(maxsz, 3)
    sz = lambda: [draw(st.integers(1, mx)) for _ in range(dimN)]
    C = 1
    if form in 'BDE':
        C = draw(st.integers(1 if form == 'B' else 1, maxC))
    nb = 1 if form in 'AB' else draw(st.integers(1, 3))
    Ms = [draw(st.integers(1, maxM)) for _ in range(nb)]
    if form == 'A':
        spec = sz() + [Ms[0]]
    elif form == 'B':
        spec = sz() + [C, Ms[0]]
    elif form == 'C':
        spec = [sz() + [m] for m in Ms]
    elif form == 'D':
        spec = [sz() + [C, m] for m in Ms]
    else:
        spec = []
        for m in Ms:
            cs = []
            left = C
            while left > 0:
                k = draw(st.integers(1, left))
                cs.append(sz() + [k, m])
                left -= k
            spec.append(cs)
    return dict(dimN=dimN, form=form, spec=spec, C=C, M=sum(Ms))


def as_tuple(x):
    return tuple(as_tuple(y) for y in x) if isinstance(x, (list, tuple)) else x


def support(d):
    """List over (filter m, channel c) of spatial support sizes:
    supp[m][c] = tuple of dimN sizes."""
    n, form, spec, C = d['dimN'], d['form'], d['spec'], d['C']
    out = []
    if form in 'AB':
        return [[tuple(spec[:n])] * C for _ in range(spec[-1])]
    if form in 'CD':
        for b in spec:
            out += [[tuple(b[:n])] * C for _ in range(b[-1])]
        return out
    for b in spec:
        row = []
        for cb in b:
            row += [tuple(cb[:n])] * cb[-2]
        out += [row] * b[0][-1]
    return out


def maxsize(d):
    s = support(d)
    return tuple(max(s[m][c][k] for m in range(d['M']) for c in range(d['C']))
                 for k in range(d['dimN']))


def mask(d, Nv):
    """Support mask of shape Nv + (C, M)."""
    s = support(d)
    m = np.zeros(tuple(Nv) + (d['C'], d['M']), dtype=bool)
    for k in range(d['M']):
        for c in range(d['C']):
            m[tuple(slice(0, x) for x in s[k][c]) + (c, k)] = True
    return m


def project(x, d, zm):
    """Reference projection of x, shape Nv+(C,M): support, optional zero
    mean per filter and channel, unit norm per filter (zero stays zero)."""
    n = d['dimN']
    mk = mask(d, x.shape[:n])
    y = np.where(mk, x, 0)
    if zm:
        for k in range(d['M']):
            for c in range(d['C']):
                sel = mk[..., c, k]
                v = y[..., c, k]
                v[sel] -= v[sel].mean()
    for k in range(d['M']):
        nr = np.sqrt(np.sum(np.abs(y[..., k])**2))
        if nr > 0:
            y[..., k] /= nr
    return y
