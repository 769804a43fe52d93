"""Independent evaluation of the documented statistics at captured iterates."""
import numpy as np
from vlib import ref
from vlib import solvers as sv
from vlib import tvm


def l1ball_dist(V, gamma, axes):
    """Distance of V to the set whose slices over `axes` have l1 norm <= gamma."""
    b = ref.BallL1(gamma, V.shape, axes)
    return float(np.linalg.norm(b.prox(np.asarray(V, dtype=float), 1.0) - V))


def l2ball_dist(V, eps, axes):
    n = np.sqrt(np.sum(np.asarray(V, dtype=float)**2, axis=axes))
    return float(np.sqrt(np.sum(np.maximum(n - eps, 0)**2)))


class Field(dict):
    """Expected value and the scale rounding is measured against."""


def grab(obj):
    """Copies of the iterates of a solver, called from its callback."""
    d = {'k': obj.k}
    for a in ('X', 'Y', 'U', 'Y1', 'U1', 'AX', 'AX1nr'):
        v = getattr(obj, a, None)
        if isinstance(v, np.ndarray):
            d[a] = np.array(v, copy=True)
    if hasattr(obj, 'rho'):
        d['rho'] = float(obj.rho)
    for a in ('var_y0', 'var_y1'):
        f = getattr(obj, a, None)
        if f is not None:
            try:
                d[a] = np.array(f(), copy=True)
            except Exception:
                pass
    return d


def conv_expect(m, it, fE, gE, aux):
    """Expected objective fields of a convolutional sparse coding solver."""
    e = m.eff
    X, Y = it['X'], it['Y']
    lm, mu = m.lmbda, m.mu
    extra = None
    if m.kind == 'AddMaskSim':
        Cd = m.p.Cd
        extra = (X[..., -Cd:], Y[..., -Cd:])
        X, Y = X[..., :-Cd], Y[..., :-Cd]
    nS = float(np.sum(m.p.S64**2))
    out = {}

    def quad(V, E=None):
        R = m.synth(V)
        if E is not None:
            E = np.asarray(E, dtype=float)
            R = R + (E if m.p.Cd == 1 else np.swapaxes(E, m.n, m.n + 2))
        sc = float(np.sum(R**2)) + nS
        R = R - m.p.S64
        return 0.5 * float(np.sum((m.Wi * R if m.kind != 'AddMaskSim' else R)**2)), sc
    if e in sv.ADMM_2B or e in ('ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint'):
        R = it['var_y0'] if aux else m.synth(X) - m.p.S64
        if not aux and e == 'ConvMinL1InL2Ball':
            R = m.synth(X) - m.p.S64
        V = it['var_y1'] if aux else X
        sr = float(np.sum(np.abs(np.asarray(m.synth(X)))) + np.abs(m.p.S64).sum())
        if e == 'ConvMinL1InL2Ball':
            out['ObjFun'] = (m.l1(V), m.l1(V))
            out['Cnstr'] = (l2ball_dist(R, m.epsilon, m.spax), np.linalg.norm(R) + np.linalg.norm(m.p.S64))
            return out
        d = m.dfid_res(R)
        reg, tot = m.terms(V)
        if e == 'ConvBPDNMaskDcpl':
            sr = sr**2
        else:
            # the gradient term belongs to the primal variable
            g = m.grad(X)
            tot = tot - mu * reg['RegGrad'] + mu * g
            reg = dict(reg, RegGrad=g)
        out['DFid'] = (d, sr)
        for k, v in reg.items():
            out[k] = (v, v + float(np.sum(np.asarray(X)**2)) * (k == 'RegGrad'))
        out['ObjFun'] = (d + tot, sr + abs(tot))
        return out
    if e in sv.ADMM_TV:
        # the block of the auxiliary variable constrained to equal the maps
        Y = it['var_y0'] if e == 'ConvBPDNRecTV' else it['var_y1'][..., 0]
    F, G = (X if fE else Y), (X if gE is False else Y)
    d, sc = quad(F, None if extra is None else extra[0 if fE else 1])
    if e == 'ConvBPDNProjL1':
        out['ObjFun'] = (d, sc)
        out['Cnstr'] = (l1ball_dist(G, m.gamma, m.spax + (m.n, m.n + 2)), np.abs(G).sum() + m.gamma)
        return out
    if e in sv.ADMM_TV:
        if gE:
            b0, b1 = it['var_y0'], it['var_y1']
            if e == 'ConvBPDNRecTV':
                l1v, tvv = m.l1(b0), m.tv_of(b1)
            else:
                l1v, tvv = m.l1(b1[..., 0]), m.tv_of(b0)
        else:
            l1v, tvv = m.l1(X), m.tv_of(m.tvd(X))
        reg = {'RegL1': l1v, 'RegTV': tvv}
        tot = lm * l1v + mu * tvv
    else:
        reg, tot = m.terms(G)
        if e == 'ConvBPDNGradReg':
            g = m.grad(F)
            tot = tot - mu * reg['RegGrad'] + mu * g
            reg = dict(reg, RegGrad=g)
    out['DFid'] = (d, sc)
    for k, v in reg.items():
        out[k] = (v, v + (float(np.sum(np.asarray(F)**2)) if k == 'RegGrad' else 0) +
                  (float(np.sum(np.abs(G))) if k == 'RegTV' else 0))
    out['ObjFun'] = (d + tot, sc + abs(tot))
    return out


def tv_expect(m, it, fE, gE):
    X, Y = it['X'], it['Y']
    sS = float(np.abs(m.S).sum()) + float(np.abs(X).sum())
    if m.kind == 'RobustPCA':
        f = X if fE else m.S - Y
        g = Y if gE else m.S - X
        nn = float(np.linalg.svd(np.asarray(f, dtype=float), compute_uv=False).sum())
        l1 = float(np.abs(g).sum())
        return {'NrmNuc': (nn, sS), 'NrmL1': (l1, sS), 'ObjFun': (nn + m.lmbda * l1, sS * (1 + m.lmbda)),
                'Cnstr': (float(np.linalg.norm(X + Y - m.S)), sS)}
    if m.kind == 'SplineL1':
        d = m.dfid_of(Y if gE else X - m.S)
        r = m.spl(X)
        return {'DFid': (d, sS), 'Reg': (r, sS**2), 'ObjFun': (d + m.lmbda * r, sS + m.lmbda * sS**2)}
    if m.kind.startswith('TVL1'):
        d = m.dfid_of(Y[..., -1] if gE else m.Hx(X) - m.S)
        r = m.tv_of(Y[..., :-1] if gE else m.G(X))
        sd = sS
    else:
        d = m.dfid_of(m.Hx(X) - m.S)
        r = m.tv_of(Y if gE else m.G(X))
        sd = sS**2
    return {'DFid': (d, sd), 'RegTV': (r, sS), 'ObjFun': (d + m.lmbda * r, sd + m.lmbda * sS)}


def dup_expect(m, it, fE, gE, aux):
    """Dictionary updates: DFid and Cnstr."""
    k = m.kind
    X = it['X']

    def quad(D):
        s = m.synth(D)
        return m.dfid(D), float(np.sum(np.abs(s)**2) + np.sum(np.abs(m.f64(m.Si))**2)) * max(1.0, m.W2.max())

    def cns(D):
        D = m.f64(D)
        return float(np.linalg.norm(m.proj(D) - D)), float(np.linalg.norm(D)) + 1
    if m.pgm:
        return {'DFid': quad(X), 'Cnstr': cns(X)}
    Y = it['Y']
    if k in ('md.ism', 'md.cg'):
        if aux:
            R = m.f64(it['var_y0'])
            if m.Cd == 1 and m.C > 1:
                # block 0 holds one map per (channel, signal)
                R = R.reshape(m.Nv + (m.C, m.K, 1)) if R.size == int(np.prod(m.shpS)) else R
            R = R.reshape(m.shpS)
            d = float(0.5 * np.sum(m.W2 * np.abs(R)**2))
            return {'DFid': (d, d + quad(X)[1]), 'Cnstr': cns(it['var_y1'])}
        return {'DFid': quad(X), 'Cnstr': cns(X)}
    if k in ('cns', 'md.cns'):
        if fE:
            d = sc = 0.0
            Z, S = m.f64(m.Z), m.f64(m.Si)
            blocks = [(c, q) for c in range(m.Cx) for q in range(m.K)] if m.Cd == 1 else [(None, q) for q in range(m.K)]
            for i, (c, q) in enumerate(blocks):
                cs = slice(None) if c is None else slice(c, c + 1)
                sp = (slice(None),) * m.n
                Di = m.f64(X[..., i]).reshape(m.shpD)
                r = ref.synth(Di, Z[sp + (cs, slice(q, q + 1))], m.n)
                s = S[sp + (cs, slice(q, q + 1))]
                w = m.W2[sp + (cs, slice(q, q + 1))]
                d += 0.5 * float(np.sum(w * np.abs(r - s)**2))
                sc += float(np.sum(np.abs(r)**2) + np.sum(np.abs(s)**2))
            df = (d, sc * max(1.0, m.W2.max()))
        else:
            df = quad(Y)
        g = Y if gE else np.mean(X, axis=-1)
        return {'DFid': df, 'Cnstr': cns(g.reshape(m.shpD))}
    return {'DFid': quad(X if fE else Y), 'Cnstr': cns(X if not gE else Y)}
