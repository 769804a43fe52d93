"""P13: iteration statistics describe the iterates they are reported for."""
import io
import re
import contextlib
import numpy as np
from vlib.core import Check, st, rng
from vlib import solvers as sv
from vlib import tvm, dupd, densem, dlm
from vlib import inhib
from vlib.statm import grab, conv_expect, tv_expect, dup_expect
from checks import p08
from sporco.pgm.momentum import MomentumNesterov, MomentumLinear, MomentumGenLinear
from sporco.pgm.backtrack import BacktrackStandard, BacktrackRobust
from sporco.pgm.stepsize import StepSizePolicyCauchy, StepSizePolicyBB

CHECK = Check('P13', rule='at least two iterations were recorded and the reported objective (or data fidelity) '
              'differs between the first and the last',
              assumptions=['iterates are copied in a Callback, which runs after the statistics of the iteration',
                           'ParConvBPDN keeps its iterates in worker-shared memory: its statistics are compared with '
                           'the coefficients a run of that many iterations returns',
                           'two-block and total-variation classes: the variable a functional is evaluated at follows '
                           'the AuxVarObj / fEvalX / gEvalY options as documented'])

EVS = ['default', 'default', 'aux', 'noaux', 'fxgy', 'fygx']


def ev_opts(ev, dflt):
    """Option entries and the (f at X, g at Y, AuxVarObj) they stand for;
    dflt is AuxVarObj's default."""
    if ev == 'aux':
        return {'AuxVarObj': True}, False, True, True
    if ev == 'noaux':
        return {'AuxVarObj': False}, True, False, False
    if ev == 'fxgy':
        return {'fEvalX': True, 'gEvalY': True}, True, True, dflt
    if ev == 'fygx':
        return {'fEvalX': False, 'gEvalY': False}, False, False, dflt
    return {}, not dflt, dflt, dflt


RUN = st.fixed_dictionaries({
    'n': st.lists(st.integers(1, 5), min_size=1, max_size=2), 'tol': st.sampled_from([0.0, 0.0, 1e-3, 0.3]),
    'rho': st.sampled_from([None, 0.3, 1.0, 4.0]), 'relax': st.sampled_from([1.0, 1.5, 1.8]),
    'auto': st.sampled_from([None, 'off', 'on']), 'ev': st.sampled_from(EVS),
    'f32': st.sampled_from([False, False, False, True]), 'stop': st.sampled_from([None, None, None, 2])})

PRUN = st.fixed_dictionaries({
    'n': st.lists(st.integers(1, 5), min_size=1, max_size=2), 'tol': st.sampled_from([0.0, 0.0, 1e-3, 0.3]),
    'mom': st.sampled_from(['nesterov', 'linear', 'genlinear', 'default']),
    'bt': st.sampled_from(['none', 'none', 'std', 'robust']), 'step': st.sampled_from(['none', 'none', 'cauchy', 'bb']),
    'mono': st.booleans(), 'L': st.sampled_from([0.3, 1.05, 4.0]), 'f32': st.sampled_from([False, False, False, True]),
    'stop': st.sampled_from([None, None, None, 2])})


def admm_common(o, scale):
    d = {'MaxMainIter': 5, 'RelStopTol': o['tol'], 'RelaxParam': o['relax']}
    if o['rho'] is not None:
        d['rho'] = float(o['rho'] * scale)
    if o['auto'] is not None:
        d['AutoRho'] = {'Enabled': o['auto'] == 'on', 'Period': 1}
    return d


def pgm_common(o, lip):
    d = {'MaxMainIter': 5, 'RelStopTol': o['tol'], 'Monotone': bool(o['mono'])}
    L = o['L']
    if o['bt'] == 'none':
        L = max(L, 1.05)
        if o['step'] == 'cauchy':
            d['StepSizePolicy'] = StepSizePolicyCauchy()
        elif o['step'] == 'bb':
            d['StepSizePolicy'] = StepSizePolicyBB()
    else:
        d['Backtrack'] = BacktrackStandard() if o['bt'] == 'std' else BacktrackRobust()
    d['L'] = float(L * lip)
    if o['mom'] != 'default':
        d['Momentum'] = {'nesterov': MomentumNesterov, 'linear': MomentumLinear,
                         'genlinear': MomentumGenLinear}[o['mom']]()
    return d


def runs(t, mk, o, inner=lambda b: b):
    """Construct with a capturing callback, run, check the bookkeeping;
    returns solver, captured iterates, statistics, initial state."""
    caps = []

    def cb(obj):
        caps.append(grab(obj))
        return o['stop'] is not None and len(caps) == o['stop']
    b = mk({'Callback': cb})
    s = inner(b)
    Y0 = np.array(s.Y, copy=True) if hasattr(s, 'Y') else None
    seen = 0
    for n in o['n']:
        s.opt['MaxMainIter'] = n
        b.solve()
        t.check(0 < len(caps) - seen <= n, '%d iterations performed, limit %d', len(caps) - seen, n)
        seen = len(caps)
    its = b.getitstat()
    t.check(its is not None and len(its.Iter) == len(caps), 'entries recorded: %s, iterations: %d',
            None if its is None else len(its.Iter), len(caps))
    t.check(list(its.Iter) == list(range(len(caps))), 'iteration indices %s', list(its.Iter))
    t.check([c['k'] for c in caps] == list(range(len(caps))), 'attribute k %s', [c['k'] for c in caps])
    T = np.asarray(its.Time, dtype=float)
    t.check(np.all(T >= 0) and np.all(np.diff(T) >= 0), 'times decrease: %s', T)
    return b, s, caps, its, Y0


def compare(t, its, k, exp, what, f32):
    names = [f for f in its._fields]
    for f, (v, sc) in exp.items():
        t.check(f in names, '%s: no field %s in the statistics %s', what, f, names)
        got = getattr(its, f)[k]
        got = float(got)
        if not np.isfinite(v):
            continue
        sc = max(abs(sc), abs(v))
        tol = (2e-3 if f32 else 1e-8) * sc + 1e-8 * (not f32) + 1e-4 * f32
        if f == 'Cnstr':
            tol = (1e-2 if f32 else 1e-6) * (1e-1 + sc)
        t.check(abs(got - v) <= tol, '%s: iteration %d: %s reported %.12g, documented functional at that iterate %.12g '
                '(tolerance %.2g)', what, k, f, got, v, tol)


def objkeys(t, its, exp, what):
    """Every objective field the class reports has been evaluated."""
    skip = {'Iter', 'PrimalRsdl', 'DualRsdl', 'EpsPrimal', 'EpsDual', 'Rho', 'Time', 'XSlvRelRes', 'XSlvCGIt', 'GSIter',
            'GSRelRes', 'Rsdl', 'F_Btrack', 'Q_Btrack', 'IterBTrack', 'L'}
    left = [f for f in its._fields if f not in skip and f not in exp]
    t.check(not left, '%s: statistics fields %s not documented for this problem', what, left)


def moving(t, its):
    f = 'ObjFun' if 'ObjFun' in its._fields else ('DFid' if 'DFid' in its._fields else its._fields[1])
    v = getattr(its, f)
    t.nontrivial(len(v) > 1 and v[0] != v[-1])


def residuals(t, its, caps, Y0, f32, what):
    """Plain equality constraint x = y: documented normalised residuals."""
    Yp = Y0
    for k, c in enumerate(caps):
        rho = float(its.Rho[k])
        if not (np.isfinite(rho) and rho > 1e-8 and rho < 1e12):
            return
        rsf = c['rho'] / rho
        X, Y, U = (np.asarray(v) for v in (c['X'], c['Y'], c['U']))
        U = U * rsf
        rn = max(np.linalg.norm(X), np.linalg.norm(Y)) or 1.0
        sn = rho * np.linalg.norm(U) or 1.0
        r = np.linalg.norm(X - Y) / rn
        s = rho * np.linalg.norm(Yp - Y) / sn
        tol = 1e-3 if f32 else 1e-7
        if np.isfinite(r):
            t.check(abs(float(its.PrimalRsdl[k]) - r) <= tol * (1 + r), '%s: iteration %d: PrimalRsdl %.10g, residual of the '
                    'iterates %.10g', what, k, its.PrimalRsdl[k], r)
        if np.isfinite(s) and sn > 1e-9 * rho * rn:
            t.check(abs(float(its.DualRsdl[k]) - s) <= tol * (1 + s) * max(1.0, rn / (sn / rho)), '%s: iteration %d: DualRsdl %.10g, '
                    'residual of the iterates %.10g', what, k, its.DualRsdl[k], s)
        Yp = Y


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(sv.ADMM_EQ * 2 + sv.ADMM_2B * 2 + sv.ADMM_TV * 2 + sv.PDCSC + sv.WRAP,
                                               maxN=(8, 5, 3)), 'o': RUN}), quick=3200, shards=8, budget=10)
def conv(case, t):
    c, o = case['c'], case['o']
    f32 = o['f32']
    m = sv.Model(c, 'float32' if f32 else 'float64')
    d = admm_common(o, m.rho0())
    two = m.eff in sv.ADMM_2B or m.kind in ('ConvProdDictL1L1Grd', 'ConvProdDictL1L1GrdJoint')
    ev = o['ev'] if not two else {'fxgy': 'aux', 'fygx': 'noaux'}.get(o['ev'], o['ev'])
    e, fE, gE, aux = ev_opts(ev, False)
    d.update(e)
    d = p08.valid(m, d)
    b, s, caps, its, Y0 = runs(t, lambda x: m.make(dict(d, **x)), o, lambda b: getattr(b, 'cbpdn', b))
    what = m.kind + ('/' + m.inner if m.inner else '')
    for k, cp in enumerate(caps):
        if not np.all(np.isfinite(cp['X'])):
            t.skip('diverged')
        exp = conv_expect(m, cp, fE, gE, aux)
        compare(t, its, k, exp, what, f32)
    objkeys(t, its, exp, what)
    if m.eff in sv.ADMM_EQ:
        residuals(t, its, caps, Y0, f32, what)
    t.label(m.kind)
    t.label('ev_' + ev)
    moving(t, its)


@CHECK.sub(st.fixed_dictionaries({'q': inhib.CASE, 'o': RUN}), quick=400, shards=4, budget=6)
def inhibition(case, t):
    o = case['o']
    f32 = o['f32']
    q = inhib.Inhib(case['q'], 'float32' if f32 else 'float64')
    m = q.m
    e, fE, gE, aux = ev_opts(o['ev'], False)
    d = dict(admm_common(o, m.rho0()), **e)
    b, s, caps, its, Y0 = runs(t, lambda x: q.make(dict(d, **x)), o)
    if not all(np.all(np.isfinite(c['X'])) for c in caps):
        t.skip('diverged')
    for k, (cp, (l, w)) in enumerate(zip(caps, q.weights([c['X'] for c in caps]))):
        exp = conv_expect(m, cp, fE, gE, aux)
        G = np.abs(np.asarray(cp['Y'] if gE else cp['X'], dtype=float))
        rl, rs = float(np.sum(l * G)), float(np.sum(w * G))
        v, sc = exp['ObjFun']
        exp['RegLat'], exp['RegSelf'] = (rl, rl), (rs, rs)
        exp['ObjFun'] = (v + q.mu * rl + q.gam * rs, sc + q.mu * rl + q.gam * rs)
        compare(t, its, k, exp, 'ConvBPDNInhib', f32)
    objkeys(t, its, exp, 'ConvBPDNInhib')
    residuals(t, its, caps, Y0, f32, 'ConvBPDNInhib')
    t.label('lateral', q.lat)
    t.label('self', q.slf)
    moving(t, its)


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(sv.PGM, maxN=(8, 5, 3)), 'o': PRUN}), quick=300, shards=4, budget=8)
def pgmconv(case, t):
    c, o = case['c'], case['o']
    f32 = o['f32'] and o['bt'] == 'none'
    m = sv.Model(c, 'float32' if f32 else 'float64')
    d = pgm_common(o, m.lipA * max(m.Wi.max()**2, 1e-3))
    b, s, caps, its, _ = runs(t, lambda x: m.make(dict(d, **x)), o)
    for k, cp in enumerate(caps):
        X = cp['X']
        if not np.all(np.isfinite(X)):
            t.skip('diverged')
        nS = float(np.sum(m.p.S64**2) + np.sum(m.synth(X)**2))
        dv, rv = m.dfid(X), m.l1(X)
        exp = {'DFid': (dv, nS), 'RegL1': (rv, rv), 'ObjFun': (dv + m.lmbda * rv, nS + m.lmbda * rv)}
        compare(t, its, k, exp, m.kind, f32)
    objkeys(t, its, exp, m.kind)
    t.same(b.getcoef(), caps[-1]['X'], 'getcoef() is the iterate of the last entry')
    t.label(m.kind)
    moving(t, its)


@CHECK.sub(st.fixed_dictionaries({'c': tvm.case(), 'o': RUN}), quick=2400, shards=6, budget=8)
def tvd(case, t):
    c, o = case['c'], case['o']
    f32 = o['f32']
    m = tvm.Model(c, 'float32' if f32 else 'float64')
    d = admm_common(o, 1.0)
    fE = gE = True
    if o['ev'] in ('noaux', 'fygx'):
        d['gEvalY'], gE = False, False
    if o['ev'] in ('aux', 'fygx') and m.kind == 'RobustPCA':
        d['fEvalX'], fE = False, False
    b, s, caps, its, _ = runs(t, lambda x: m.make(dict(d, **x)), o)
    for k, cp in enumerate(caps):
        if not np.all(np.isfinite(cp['X'])):
            t.skip('diverged')
        exp = tv_expect(m, cp, fE, gE)
        compare(t, its, k, exp, m.kind, f32)
    objkeys(t, its, exp, m.kind)
    t.label(m.kind)
    t.label('gEvalY', gE)
    moving(t, its)


@CHECK.sub(st.fixed_dictionaries({'c': dupd.case(), 'o': RUN, 'p': PRUN}), quick=2100, shards=6, budget=9)
def dup(case, t):
    c = case['c']
    pg = c['kind'].startswith('pgm')
    o = case['p'] if pg else case['o']
    f32 = o['f32'] and not (pg and o['bt'] != 'none')
    m = dupd.Model(c, 'float32' if f32 else 'float64')
    lip = m.lip()
    fE, gE, aux = False, True, True
    if pg:
        d = pgm_common(o, lip)
    else:
        d = admm_common(o, 1.0 if m.kind.startswith('md.') else lip)
        md2 = m.kind in ('md.ism', 'md.cg')
        ev = o['ev'] if not md2 else {'fxgy': 'aux', 'fygx': 'noaux'}.get(o['ev'], o['ev'])
        e, fE, gE, aux = ev_opts(ev, m.kind in ('cmod', 'cns', 'md.cns'))
        d.update(e)
    d.update(m.init())
    b, s, caps, its, Y0 = runs(t, lambda x: m.make(dict(d, **x)), o)
    for k, cp in enumerate(caps):
        if not np.all(np.isfinite(cp['X'])):
            t.skip('diverged')
        exp = dup_expect(m, cp, fE, gE, aux)
        near = ('Cnstr' in exp) and projection_jump(m, cp)
        if near:
            exp.pop('Cnstr')
        compare(t, its, k, exp, m.kind, f32)
    if not near:
        objkeys(t, its, exp, m.kind)
    if m.kind in ('cmod', 'ism', 'cg') and not m.cplx:
        residuals(t, its, caps, Y0, f32, m.kind)
    t.label(m.kind)
    t.label('ev_' + o.get('ev', 'pgm'))
    moving(t, its)


def projection_jump(m, cp):
    """Normalisation of an atom that is (nearly) zero is discontinuous."""
    for a in ('X', 'Y', 'var_y1'):
        V = cp.get(a)
        if V is None:
            continue
        vs = [V] if V.size == int(np.prod(m.shpD)) else (
            [V[..., i] for i in range(V.shape[-1])] + [V.mean(axis=-1)]
            if V.shape[:-1] == m.shpD else [])
        for v in vs:
            v = m.f64(v).reshape(m.shpD)
            w = np.where(m.supp, v, 0)
            if m.zm:
                if m.dense:
                    w = w - w.mean(axis=0)
                else:
                    sp = m.supp.reshape(m.Nv + (m.Cd, m.M))
                    wr = w.reshape(sp.shape)
                    for c in range(m.Cd):
                        for k in range(m.M):
                            q = wr[..., c, k]
                            q[sp[..., c, k]] -= q[sp[..., c, k]].mean()
                    w = wr.reshape(m.shpD)
            if m.nn:
                w = np.maximum(w, 0)
            ax = (0,) if m.dense else tuple(range(m.n + 1))
            nr = np.sqrt(np.sum(np.abs(w)**2, axis=ax))
            full = np.sqrt(np.sum(np.abs(v)**2, axis=ax))
            if np.any((nr < 1e-5 * np.maximum(full, 1.0))):
                return True
    return False


@CHECK.sub(st.fixed_dictionaries({'c': densem.case(), 'o': RUN, 'p': PRUN}), quick=2000, shards=4, budget=6)
def dense(case, t):
    c = case['c']
    pg = c['kind'].startswith('pgm')
    o = case['p'] if pg else case['o']
    f32 = o['f32'] and not (pg and o['bt'] != 'none')
    m = densem.Model(c, 'float32' if f32 else 'float64')
    fE, gE, aux = False, True, False
    if pg:
        d = pgm_common(o, m.lip)
    else:
        d = admm_common(o, m.rho0())
        two = m.kind == 'MinL1InL2Ball'
        ev = o['ev'] if not two else {'fxgy': 'aux', 'fygx': 'noaux'}.get(o['ev'], o['ev'])
        e, fE, gE, aux = ev_opts(ev, not two)
        d.update(e)
    b, s, caps, its, Y0 = runs(t, lambda x: m.make(dict(d, **x)), o)
    for k, cp in enumerate(caps):
        if not np.all(np.isfinite(cp['X'])):
            t.skip('diverged')
        exp = m.expect(cp, fE, gE, aux)
        compare(t, its, k, exp, m.kind, f32)
    objkeys(t, its, exp, m.kind)
    if not pg and m.kind != 'MinL1InL2Ball':
        residuals(t, its, caps, Y0, f32, m.kind)
    t.label(m.kind)
    moving(t, its)


@CHECK.sub(st.fixed_dictionaries({'c': sv.case(['ParConvBPDN'], maxN=(6, 4, 3), dimNs=(1, 2, 2), minN=2), 'n': st.integers(2, 4),
                                  'np': st.integers(1, 4), 'relax': st.sampled_from([1.0, 1.8])}),
           quick=24, shards=4, budget=14)
def par(case, t):
    m = sv.Model(case['c'])
    b = m.make({'AuxVarObj': True, 'MaxMainIter': case['n'], 'RelaxParam': case['relax'], 'RelStopTol': 0.0,
                'AutoRho': {'Enabled': False}}, nproc=case['np'])
    X = np.asarray(b.solve())
    its = b.getitstat()
    t.check(list(its.Iter) == list(range(case['n'])), 'iteration indices %s', its.Iter)
    t.check(np.all(np.diff(np.asarray(its.Time)) >= 0), 'times decrease')
    nS = float(np.sum(m.p.S64**2) + np.sum(m.synth(X)**2))
    dv, rv = m.dfid(X), m.l1(X)
    exp = {'DFid': (dv, nS), 'RegL1': (rv, rv), 'ObjFun': (dv + m.lmbda * rv, nS + m.lmbda * rv)}
    compare(t, its, case['n'] - 1, exp, m.kind, False)
    moving(t, its)


# -- display, callbacks and fast mode -----------------------------------------

KINDS = sv.ADMM_EQ + sv.ADMM_2B + sv.ADMM_TV + sv.PDCSC + sv.WRAP + sv.PGM


@st.composite
def anycase(draw):
    which = draw(st.sampled_from(['conv', 'conv', 'tvd', 'dup', 'dup', 'dense']))
    c = draw({'conv': sv.case(KINDS, maxN=(8, 5, 3)), 'tvd': tvm.case(), 'dup': dupd.case(), 'dense': densem.case()}[which])
    return dict(which=which, c=c)


def build(w, o, p, dtype='float64'):
    """Model, factory taking extra options, accessor of the iterating solver."""
    c = w['c']
    inner = lambda b: getattr(b, 'cbpdn', b)
    if w['which'] == 'conv':
        m = sv.Model(c, dtype)
        if c['kind'].startswith('pgm'):
            d = lambda: pgm_common(p, m.lipA * max(m.Wi.max()**2, 1e-3))
        else:
            d = lambda: p08.valid(m, admm_common(o, m.rho0()))
    elif w['which'] == 'tvd':
        m = tvm.Model(c, dtype)
        d = lambda: admm_common(o, 1.0)
    elif w['which'] == 'dup':
        m = dupd.Model(c, dtype)
        d = lambda: dict(pgm_common(p, m.lip()) if m.pgm else
                         admm_common(o, 1.0 if m.kind.startswith('md.') else m.lip()), **m.init())
    else:
        m = densem.Model(c, dtype)
        d = lambda: pgm_common(p, m.lip) if m.kind.startswith('pgm') else admm_common(o, m.rho0())
    return m, lambda x: m.make(dict(d(), **x)), inner


def state(b):
    """Everything an observer can compare after a run."""
    out = []
    for a in ('X', 'Y', 'U'):
        v = getattr(b, a, None)
        if isinstance(v, np.ndarray):
            out.append((a, np.array(v, copy=True)))
    for a in ('rho', 'L'):
        v = getattr(b, a, None)
        if v is not None:
            out.append((a, np.asarray(v, dtype=float)))
    return out


@CHECK.sub(st.fixed_dictionaries({'w': anycase(), 'o': RUN, 'p': PRUN, 'hdr': st.booleans(),
                                  'mode': st.sampled_from(['verbose', 'verbose', 'fast', 'fastverbose', 'nocb', 'chk'])}),
           quick=2400, shards=6, budget=10)
def combos(case, t):
    """Display, callbacks and statistics do not influence the result, and the
    display shows the recorded statistics."""
    o, p = dict(case['o'], tol=0.0), dict(case['p'], tol=0.0)
    m, mk, inner = build(case['w'], o, p)
    n = o['n'][0] + 1
    mode = case['mode']
    calls = []
    b0 = mk({'MaxMainIter': n, 'Callback': lambda x: calls.append(x.k)})
    R0 = b0.solve()
    its = b0.getitstat()
    s0 = state(inner(b0))
    t.eq(len(calls), len(its.Iter), 'callback calls')
    ex = {'MaxMainIter': n}
    cls = type(inner(b0))
    if mode == 'verbose':
        ex.update(Verbose=True, StatusHeader=case['hdr'])
    elif mode == 'fast':
        ex.update(FastSolve=True)
    elif mode == 'fastverbose':
        ex.update(FastSolve=True, Verbose=True)
    elif mode == 'chk':
        if 'LinSolveCheck' not in inner(b0).opt:
            t.skip('no linear solve check')
        ex.update(LinSolveCheck=True)
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        b1 = mk(ex)
        R1 = b1.solve()
    if mode.startswith('fast') and len(its.Iter) < n:
        t.skip('stopped early; fast mode need not evaluate the residuals')
    what = '%s with %s' % (m.kind, ex)
    for i, (x, y) in enumerate(zip(R0 if isinstance(R0, tuple) else (R0,), R1 if isinstance(R1, tuple) else (R1,))):
        t.same(y, x, what + ': returned result')
    for (a, v), (_, u) in zip(s0, state(inner(b1))):
        t.same(u, v, what + ': attribute ' + a)
    out = buf.getvalue()
    if mode == 'verbose':
        its1 = b1.getitstat()
        t.eq(len(its1.Iter), len(its.Iter), what + ': entries')
        for f in its._fields:
            if f == 'Time':
                continue
            for x, y in zip(getattr(its, f), getattr(its1, f)):
                t.check(x == y or (x is None and y is None) or (x != x and y != y), '%s: statistic %s: %r vs %r', what, f, x, y)
        rows = []
        for ln in out.splitlines():
            w = ln.split()
            if w and re.match(r'^\d+$', w[0]):
                rows.append(w)
        t.eq(len(rows), len(its.Iter), what + ': rows displayed')
        t.check(('---' in out) == case['hdr'], '%s: header display', what)
        cols = [cls.hdrval()[h] for h in cls.hdrtxt()]
        for k, w in enumerate(rows):
            t.check(len(w) <= len(cols), '%s: %d columns displayed, %d declared', what, len(w), len(cols))
            for h, x in zip(cols, w):
                v = getattr(its1, h)[k]
                if v is None or not np.isfinite(float(v)):
                    continue
                t.check(abs(float(x) - float(v)) <= 6e-3 * abs(float(v)) + 1e-300, '%s: row %d shows %s for %s = %r', what, k, x, h, v)
    elif mode == 'nocb' or mode == 'fast':
        t.eq(out, '', what + ': unrequested output')
    t.label(m.kind)
    t.label(mode)
    t.nontrivial(len(its.Iter) > 1)


@CHECK.sub(st.fixed_dictionaries({'c': dlm.case(), 'o': dlm.OPTS, 'n': st.integers(1, 4), 'hdr': st.booleans(), 'cb': st.booleans(),
                                  'mode': st.sampled_from(['verbose', 'verbose', 'fast', 'timer'])}),
           quick=500, shards=4, budget=10)
def learn(case, t):
    """Display, callbacks, statistics and timer selection do not influence
    what is learned; the display shows the recorded statistics."""
    c, o, n, mode = dict(case['c']), case['o'], case['n'], case['mode']
    if c.get('nproc') and c['seed'] % 6:
        c['nproc'] = 0
    m = dlm.Model(c)
    kx, kd = m.keys()
    base = m.optdict(o)

    def run(extra, sub):
        d = {k: dict(v) if isinstance(v, dict) else v for k, v in base.items()}
        d.update({} if m.online else {'MaxMainIter': n})
        d.update(extra)
        for k in (kx, kd):
            if k in d:
                d[k] = dict(d[k], RelStopTol=0.0, **sub)
        opt = m.cls().Options(d, xmethod=m.xm, dmethod=m.dm) if m.kind in dlm.BATCH else m.cls().Options(d)
        buf = io.StringIO()
        res = []
        with contextlib.redirect_stdout(buf):
            b = m.make(o, opt=opt)
            if m.online:
                for k in range(n):
                    r = b.solve(np.roll(m.S, k, axis=0))
                    res.append(np.array(r, copy=True))
                b.display_end()
            else:
                res.append(np.array(b.solve(), copy=True))
                res.append(np.array(b.getcoef(), copy=True))
        return b, res, buf.getvalue()

    calls = []
    ex = {}
    if case['cb'] and not m.online:
        ex['Callback'] = lambda b: bool(calls.append(b.j))
    b0, r0, out0 = run(ex if mode == 'fast' else {}, {})
    t.eq(out0, '', 'unrequested output')
    sub = {}
    if mode == 'verbose':
        ex.update(Verbose=True, StatusHeader=case['hdr'])
    elif mode == 'timer':
        if m.par:
            t.skip('no timer selection')
        ex.update(IterTimer='solve' if m.online or case['hdr'] else 'solve_wo_eval')
    elif mode == 'fast':
        if m.online or m.par:
            t.skip('no separate statistics of the steps')
        sub = {'FastSolve': True}
        ex = {}
    try:
        b1, r1, out1 = run(ex, sub)
    except Exception:
        if mode == 'fast' and m.xm == 'pgm' and (o['bt'] != 'none' or o['mono']):
            t.skip('not defined')
        raise
    what = '%s(%s,%s) with %s %s' % (m.kind, m.xm, m.dm, sorted(ex), sub)
    if not all(np.all(np.isfinite(x)) for x in r0):
        t.skip('diverged')
    if case['cb'] and mode != 'fast' and not m.online:
        t.eq(calls, list(range(n)), what + ': callback calls')
    for x, y in zip(r0, r1):
        t.same(y, x, what + ': result')
    i0, i1 = b0.getitstat(), b1.getitstat()
    t.eq(list(i1.Iter), list(range(n)), what + ': iterations')
    t.check(np.all(np.diff(np.asarray(i1.Time, dtype=float)) >= 0), '%s: times decrease', what)
    same = lambda x, y: x == y or (x is None and y is None) or (x != x and y != y)
    if mode != 'fast':
        for f in i0._fields:
            if f != 'Time':
                t.check(all(same(x, y) for x, y in zip(getattr(i0, f), getattr(i1, f))), '%s: statistic %s: %s vs %s', what, f,
                        getattr(i0, f), getattr(i1, f))
    if mode == 'verbose':
        rows = [ln.split() for ln in out1.splitlines() if re.match(r'^\s*\d+\s', ln)]
        t.eq(len(rows), n, what + ': rows displayed')
        t.check(('---' in out1) == case['hdr'], '%s: header display', what)
        if m.par:
            cols = ['Iter', 'ObjFun', 'DFid', 'RegL1']
        elif m.online:
            cols = [type(b1).hdrval()[h] for h in type(b1).hdrtxt()]
        else:
            cols = [b1.isc.hdrmap[h] for h in b1.isc.hdrtxt]
        for k, w in enumerate(rows):
            t.eq(len(w), len(cols), what + ': columns displayed')
            for h, x in zip(cols, w):
                v = float(getattr(i1, h)[k])
                if np.isfinite(v):
                    t.check(abs(float(x) - v) <= 6e-3 * abs(v) + 1e-300, '%s: row %d shows %s for %s = %r', what, k, x, h, v)
    else:
        t.eq(out1, '', what + ': unrequested output')
    t.label('%s %s' % (m.kind, mode))
    t.nontrivial(n > 1)
