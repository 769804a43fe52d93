"""Table-driven functions on parameter grids (picklable)."""
import numpy as np


def grids(p):
    """Strictly increasing or arbitrary distinct sample points per axis."""
    rs = np.random.RandomState(p['seed'] % (2**32))
    out = []
    for n in p['lens']:
        g = np.cumsum(0.5 + rs.rand(n)) - 2.0
        if p.get('shuffle'):
            g = rs.permutation(g)
        out.append(np.round(g, 6))
    return tuple(out)


def table(p):
    rs = np.random.RandomState((p['seed'] + 1) % (2**32))
    shp = list(p['lens']) + ([p['nv']] if p['nv'] else [])
    k = p['vals']
    if k == 'normal':
        t = rs.randn(*shp)
    elif k == 'ties':
        t = rs.randint(0, 3, size=shp).astype(float)
    elif k == 'const':
        t = np.full(shp, 1.5)
    elif k == 'inf':
        t = rs.randn(*shp)
        t[rs.rand(*shp) < 0.2] = np.inf
    elif k == 'nan':
        t = rs.randn(*shp)
        t[rs.rand(*shp) < 0.3] = np.nan
        # at least one valid entry per component
        t[tuple(rs.randint(n) for n in p['lens'])] = 0.25
    else:
        t = 1e6 * rs.randn(*shp)
    return t


class TableFn(object):
    """fn(prm): looks the parameter tuple up in the table."""

    def __init__(self, p):
        self.g = grids(p)
        self.t = table(p)
        self.p = p
        self.calls = 0

    def __call__(self, prm):
        self.calls += 1
        assert len(prm) == len(self.g)
        idx = tuple(int(np.argmin(np.abs(g - x))) for g, x in zip(self.g, prm))
        for g, x, i in zip(self.g, prm, idx):
            assert abs(g[i] - x) < 1e-9, 'parameter %r is not on the grid' % x
        v = self.t[idx]
        r = self.p['ret']
        if self.p['nv']:
            return tuple(float(x) for x in v) if r == 'tuple' else (
                [float(x) for x in v] if r == 'list' else np.array(v))
        v = float(v)
        if r == 'int' and np.isfinite(v) and v == int(v):
            return int(v)
        return v
