"""P10: dictionary updates are feasible and optimal for fixed coefficients."""
import numpy as np
from vlib.core import Check, st, rng
from vlib import dupd
from vlib.dupd import Model, mkopts, options, case as dcase, DENSE, CONV, MASK

CHECK = Check('P10', rule='coefficients and signal are non-zero and (convolutional case) the filter support is '
              'smaller than the signal in at least one direction; for convergence cases, additionally, the start is '
              'not already stationary',
              assumptions=['the constraint set is a product of spheres: stationarity (gradient normal to the set), '
                           'not global optimality, is what is required of a converged run',
                           'ADMM on this non-convex set converges only for a penalty of at least the order of the '
                           'Lipschitz constant of the data term (documented limitation): runs with other penalties are '
                           'judged for feasibility only, runs with such penalties must reach stationarity',
                           'momentum or step-size policies may prevent convergence on a non-convex set: stationarity '
                           'is required of the plain projected gradient run, and of any run that has settled',
                           'signals up to 9 samples per direction (6x6, 4x4x4), coefficients up to 3 signals'])
STOL = 2e-3


def shapes(m, b, t):
    Dc = b.getdict()
    if m.dense:
        t.eq(Dc.shape, m.shpD, 'dictionary shape')
    else:
        from vlib import dsz as dz
        t.eq(Dc.shape, tuple(dz.maxsize(m.d)) + m.shpD[m.n:], 'cropped dictionary shape')
        full = b.getdict(crop=False)
        t.eq(full.shape, m.shpD, 'dictionary shape')
        t.same(m.full(Dc), m.f64(full), 'cropped against full dictionary')
    t.check(Dc.dtype == m.dtype, 'dictionary dtype %s for %s', Dc.dtype, m.dtype)
    return m.full(Dc)


def reconstruction(m, b, D, t):
    tol = 1e-3 if m.rdtype == np.float32 else 1e-8
    if not hasattr(b, 'reconstruct'):
        return
    if m.dense:
        t.close(b.reconstruct(D.astype(m.dtype)), m.synth(D), tol, msg='reconstruct(D)')
        t.close(b.reconstruct(), m.synth(D), tol, msg='reconstruct()')
        return
    R = b.reconstruct(D.astype(m.dtype))
    want = m.synth(D)
    # a single-channel dictionary with multi-channel data: channels and signals share an axis
    if m.Cd == 1 and m.C > 1:
        want = want.reshape(m.Nv + (1, m.C * m.K, 1))
    want = want.reshape(want.shape[:-1])
    sc = np.abs(want).max()
    t.close(R, want, tol, 1e-9 * (1 + sc), msg='reconstruct(D)')
    if m.pgm:
        t.close(b.reconstruct(), want, tol, 1e-9 * (1 + sc), msg='reconstruct()')


def runaway(m, b, t):
    """Residual balancing multiplies the penalty by up to 1000 per iteration
    for as long as one residual is negligible: a run whose penalty has left
    the floating point range this way (documented rule) says nothing."""
    if not m.pgm and not 1e-30 < float(b.rho) < 1e30:
        t.skip('penalty adapted out of range')


def verify(m, b, t):
    runaway(m, b, t)
    D = shapes(m, b, t)
    w = m.infeasible(D)
    t.check(not w, '%s: %s', m.kind, w)
    return D


def stats(m, b, D, t):
    """Reported data fidelity and constraint violation after the last iteration."""
    its = b.getitstat()
    tol = 2e-3 if m.rdtype == np.float32 else 1e-7
    if m.pgm:
        t.close(its.DFid[-1], m.dfid(D), tol, 1e-9, msg='DFid')
        t.check(its.Cnstr[-1] <= 1e-3 if m.rdtype == np.float32 else its.Cnstr[-1] <= 1e-8,
                'Cnstr %g at a feasible dictionary', its.Cnstr[-1])


HIST = st.fixed_dictionaries({'n': st.integers(1, 6), 'n2': st.integers(0, 3), 'f32': st.sampled_from([False, False, True])})


def feas_body(case, t):
    """Feasible after any number of iterations, also after the coefficients
    have been replaced; reconstruction and statistics agree."""
    c, o, h = case['c'], case['o'], case['h']
    m = Model(c, 'float32' if h['f32'] else 'float64')
    d = mkopts(m, o)
    d.update(m.init())
    d.update({'MaxMainIter': h['n'], 'RelStopTol': 0.0})
    seen = []

    def cb(b):
        runaway(m, b, t)
        D = m.full(b.getdict())
        w = m.infeasible(D)
        t.check(not w, '%s: iteration %d: %s', m.kind, b.k, w)
        seen.append(b.k)
        return False
    d['Callback'] = cb
    b = m.make(d)
    b.solve()
    D = verify(m, b, t)
    t.check(seen == list(range(h['n'])), 'iterations %s', seen)
    reconstruction(m, b, D, t)
    stats(m, b, D, t)
    if h['n2']:
        m2 = Model(dict(c, seed=c['seed'] + 1), m.rdtype)
        m.Z = m2.Z
        b.setcoef(m2.Z.copy())
        b.opt['MaxMainIter'] = h['n2']
        b.solve()
        D = verify(m, b, t)
        reconstruction(m, b, D, t)
        stats(m, b, D, t)
        t.label('setcoef')
    t.label(m.kind)
    t.label('f32', h['f32'])
    t.label('zm', m.zm)
    t.nontrivial(np.any(m.Z) and np.any(m.Si) and (m.dense or not m.supp.all()))


@CHECK.sub(st.fixed_dictionaries({'c': dcase(tuple(CONV + MASK)), 'o': options(), 'h': HIST}),
           quick=1600, shards=8, budget=16)
def conv_feasible(case, t):
    feas_body(case, t)


@CHECK.sub(st.fixed_dictionaries({'c': dcase(tuple(DENSE)), 'o': options(), 'h': HIST}), quick=800, shards=4, budget=16)
def dense_feasible(case, t):
    feas_body(case, t)


def optimum_body(case, t):
    """Converged runs are stationary; replacing the coefficients and going on
    reaches a stationary point of the new problem."""
    c, o = case['c'], case['o']
    if c['kind'].startswith('md.'):
        c = dict(c, unit=True)
    m = Model(c)
    if c['skind'] == 'zeros':
        t.skip('zero signal')
    Z2 = Model(dict(c, seed=c['seed'] + 1)).Z if case['swap'] else None

    def run(d, plan, settled):
        d = dict(d)
        d.update(m.init())
        d.update({'MaxMainIter': plan[0], 'RelStopTol': 1e-9})
        b = m.make(d)
        b.solve()
        if Z2 is not None:
            b.setcoef(Z2.copy())
            b.solve()
        s = np.inf
        for n in plan:
            b.opt['MaxMainIter'] = n
            b.solve()
            D = verify(m, b, t)
            s = m.stationarity(D, Z2)
            if s <= STOL:
                break
            its = b.getitstat()
            if settled and not m.pgm and max(its.PrimalRsdl[-1], its.DualRsdl[-1]) < 1e-8 * (
                    1 if o['cgtol'] < 1e-6 or not m.kind.endswith('cg') else 0):
                break
        return s, b, D
    lip = max(m.lip(), m.lip(Z2)) if Z2 is not None else m.lip()
    D0 = m.D0 if c['init'] != 'none' else np.zeros(m.shpD)
    # the run as configured: when it has settled it must be at a stationary point
    s, b, D = run(mkopts(m, o, lip=lip), (200, 400), True)
    its = b.getitstat()
    if s > STOL and not m.pgm:
        r = max(its.PrimalRsdl[-1], its.DualRsdl[-1])
        if not (m.kind.endswith('cg') and o['cgtol'] > 1e-6):
            t.check(not r < 1e-8, '%s: residuals %.2g, but the gradient has a tangential part %.3g (tolerance %.1g)',
                    m.kind, r, s, STOL)
    t.label('asis', s <= STOL)
    if s > STOL or case['plain']:
        for fb in ((1.0, 4.0) if m.pgm else (2.0, 6.0, 20.0)):
            s, b, D = run(mkopts(m, o, fb, lip), (400, 2000, 6000), False)
            if s <= STOL:
                break
        t.check(s <= STOL, '%s: plain run does not settle at a stationary point: tangential part of the gradient %.3g '
                '(tolerance %.1g)', m.kind, s, STOL)
    t.label(m.kind)
    t.label('swap', Z2 is not None)
    t.label('zm', m.zm)
    t.nontrivial(np.any(m.Z) and np.any(m.Si) and (m.dense or not m.supp.all()) and m.stationarity(D0, Z2) > 10 * STOL)


OPTM = lambda kinds: st.fixed_dictionaries({'c': dcase(tuple(kinds), maxN=(7, 5, 3), maxM=2), 'o': options(),
                                            'plain': st.booleans(), 'swap': st.sampled_from([False, False, True])})


@CHECK.sub(OPTM(CONV), quick=300, shards=8, budget=16)
def conv_optimum(case, t):
    optimum_body(case, t)


@CHECK.sub(OPTM(MASK), quick=300, shards=8, budget=16)
def mask_optimum(case, t):
    optimum_body(case, t)


@CHECK.sub(OPTM(DENSE), quick=240, shards=4, budget=12)
def dense_optimum(case, t):
    optimum_body(case, t)
