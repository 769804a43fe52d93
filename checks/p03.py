"""P03: structured linear solvers and products."""
import numpy as np
from vlib.core import Check, st, arrspec, mkarr, rng
import sporco.linalg as sl

CHECK = Check(
    'P03',
    rule='systems with 1-5 array axes in every axis order, sizes 1-4, real and complex data of three '
         'scales, shifts 1e-3..1e3, right-hand sides broadcast over extra axes; matrices tall/wide/square/'
         'rank-deficient; non-trivial = system dimension > 1 or more than one independent system',
    assumptions=['all arguments of one solver share a real or complex dtype',
                 'the recursive variant requires the K axis directly before the M axis (its only documented layout)',
                 'matrix right-hand sides of the A A^T solvers hold one right-hand side per row (as its callers use it); '
                 'LU/Cholesky and Sylvester solvers: real matrices'])

K3 = ('normal', 'smallint', 'sparse', 'big', 'tiny')
RHO = st.one_of(st.sampled_from([1e-3, 1.0, 1e3]), st.floats(1e-2, 50))
CD = st.sampled_from(['complex128', 'complex128', 'float64', 'complex64'])


def dtol(dt):
    return 2e-5 if dt == 'complex64' else 1e-12


@st.composite
def dbi(draw):
    nd = draw(st.integers(1, 5))
    ax = draw(st.integers(-nd, nd - 1))
    shp = [draw(st.integers(1, 3)) for _ in range(nd)]
    shp[ax] = draw(st.integers(1, 5))
    bc = [draw(st.booleans()) for _ in range(nd)]      # axes where `a` is broadcast
    return dict(shp=shp, axis=ax, bc=bc, a=draw(arrspec(K3)), b=draw(arrspec(K3)),
                rho=draw(RHO), dt=draw(CD), pre=draw(st.booleans()), diag=draw(st.booleans()))


@CHECK.sub(dbi(), quick=1500, shards=2, budget=30)
def rank_one(c, t):
    """(rho I + a a^H) x = b and (diag(d) + a a^H) x = b along one axis."""
    shp = tuple(c['shp'])
    ax = c['axis'] % len(shp)
    ashp = tuple(1 if (f and k != ax) else s for k, (s, f) in enumerate(zip(shp, c['bc'])))
    ah = mkarr(c['a'], ashp, c['dt'])
    b = mkarr(c['b'], shp, c['dt'], salt=1)
    rho = c['rho']
    ah0, b0 = ah.copy(), b.copy()
    if c['diag']:
        # the weight is broadcast like `a` off the solve axis
        d = (rho * (0.5 + rng(c['a']['seed'], 9).rand(*ashp))).astype(np.zeros(1, c['dt']).real.dtype)
        cc = sl.solvedbd_sm_c(ah, np.conj(ah), d, axis=c['axis']) if c['pre'] else None
        x = sl.solvedbd_sm(ah, d, b, c=cc, axis=c['axis'])
    else:
        d = np.full(ashp, rho)
        cc = sl.solvedbi_sm_c(ah, np.conj(ah), rho, axis=c['axis']) if c['pre'] else None
        x = sl.solvedbi_sm(ah, rho, b, c=cc, axis=c['axis'])
    t.same(ah, ah0, 'ah modified')
    t.same(b, b0, 'b modified')
    t.check(x.shape == shp, 'shape %s' % (x.shape,))
    A = np.moveaxis(np.broadcast_to(ah, shp), ax, -1).astype(complex).reshape(-1, shp[ax])
    D = np.moveaxis(np.broadcast_to(d, shp), ax, -1).astype(float).reshape(-1, shp[ax])
    B = np.moveaxis(b, ax, -1).astype(complex).reshape(-1, shp[ax])
    X = np.moveaxis(x, ax, -1).astype(complex).reshape(-1, shp[ax])
    for k in range(A.shape[0]):
        a = np.conj(A[k])
        M = np.diag(D[k]) + np.outer(a, np.conj(a))
        chk(t, M, X[k], B[k], dtol(c['dt']), 'rank-one solve', D[k].min())
    t.nontrivial(shp[ax] > 1 or A.shape[0] > 1)
    t.label('precomputed', c['pre'])
    t.label('diagonal', c['diag'])


def chk(t, M, x, b, tol, msg, rho):
    """Forward error relative to |b|/rho_min (a bound on the solution and
    the conditioning of every Sherman-Morrison type formula)."""
    t.check(np.all(np.isfinite(x)), msg + ': not finite')
    xr = np.linalg.solve(M, b)
    err = np.linalg.norm(x - xr)
    ref = 1e-14 * np.linalg.norm(M, 2) / rho       # accuracy of the dense reference itself
    t.check(err <= (tol + ref) * np.linalg.norm(b) / rho + 1e-300,
            '%s: error %.3g, |x|=%.3g, |b|/rho=%.3g', msg, err, np.linalg.norm(xr), np.linalg.norm(b) / rho)


@st.composite
def mdbi(draw):
    dimN = draw(st.integers(0, 3))
    Nv = [draw(st.integers(1, 3)) for _ in range(dimN)]
    return dict(Nv=Nv, K=draw(st.integers(1, 5)), M=draw(st.integers(1, 5)), L=draw(st.integers(1, 3)),
                perm=draw(st.permutations(list(range(dimN + 3)))), a=draw(arrspec(K3)), b=draw(arrspec(K3)),
                rho=draw(RHO), dt=draw(CD), neg=draw(st.booleans()), warm=draw(st.booleans()))


def assemble(c):
    Nv = tuple(c['Nv'])
    ah = mkarr(c['a'], Nv + (1, c['K'], c['M']), c['dt'])
    b = mkarr(c['b'], Nv + (c['L'], 1, c['M']), c['dt'], salt=2)
    A = ah.astype(complex).reshape(-1, c['K'], c['M'])
    B = b.astype(complex).reshape(-1, c['L'], c['M'])
    return ah, b, A, B


def verify(t, c, x, A, B, tol, msg):
    X = np.asarray(x).astype(complex).reshape(-1, c['L'], c['M'])
    for n in range(A.shape[0]):
        a = np.conj(A[n])              # rows a_k
        M = c['rho'] * np.eye(c['M']) + a.T.dot(np.conj(a))
        for k in range(c['L']):
            chk(t, M, X[n, k], B[n, k], tol, msg, c['rho'])


@CHECK.sub(mdbi(), quick=1000, shards=2, budget=30)
def rank_k(c, t):
    """Rank-K solvers: iterated SM in any axis order, recursive SM, CG."""
    ah, b, A, B = assemble(c)
    nd = ah.ndim
    p = c['perm']
    inv = np.argsort(p)
    iM, iK = int(inv[nd - 1]), int(inv[nd - 2])
    aM, aK = (iM - nd, iK - nd) if c['neg'] else (iM, iK)
    ahp = np.ascontiguousarray(np.transpose(ah, p))
    bp = np.ascontiguousarray(np.transpose(b, p))
    a0, b0 = ahp.copy(), bp.copy()
    x = sl.solvemdbi_ism(ahp, c['rho'], bp, aM, aK)
    t.same(ahp, a0, 'ah modified')
    t.same(bp, b0, 'b modified')
    # the iterated formula loses digits with the condition number
    kap = max(np.linalg.cond(c['rho'] * np.eye(c['M']) + np.conj(a).T.dot(a)) for a in A)
    if kap * (1e-5 if c['dt'] == 'complex64' else 1e-13) < 1e-2:
        verify(t, c, np.transpose(x, inv), A, B, dtol(c['dt']) * (1 + 1e-2 * kap), 'solvemdbi_ism')
        if c['dt'] != 'complex64':
            xr = sl.solvemdbi_rsm(ah, c['rho'], b, len(c['Nv']) + 1, dimN=len(c['Nv']))
            t.check(xr.shape == b.shape, 'rsm shape')
            verify(t, c, xr, A, B, dtol(c['dt']) * (1 + 1e-2 * kap), 'solvemdbi_rsm')
    if c['dt'] != 'complex64' and kap < 1e6:
        isn = np.ascontiguousarray(x) * 0.5 if c['warm'] else None
        xc, info = sl.solvemdbi_cg(ahp, c['rho'], bp, iM, iK, tol=1e-10, mit=5000, isn=isn)
        X = np.transpose(xc, inv).astype(complex).reshape(-1, c['L'], c['M'])
        r2 = 0.0
        for n in range(A.shape[0]):
            a = np.conj(A[n])
            M = c['rho'] * np.eye(c['M']) + a.T.dot(np.conj(a))
            for k in range(c['L']):
                r2 += np.linalg.norm(M.dot(X[n, k]) - B[n, k])**2
        t.check(np.sqrt(r2) <= 1e-7 * np.linalg.norm(B) + 1e-12, 'CG residual %g of %g', np.sqrt(r2), np.linalg.norm(B))
    t.nontrivial(c['M'] > 1 and c['K'] > 1)
    t.label('axes permuted', list(p) != sorted(p))


@st.composite
def mats(draw):
    return dict(N=draw(st.integers(1, 6)), M=draw(st.integers(1, 6)), rank=draw(st.integers(1, 6)),
                a=draw(arrspec(K3)), b=draw(arrspec(K3)), rho=draw(RHO), cols=draw(st.integers(0, 3)),
                lower=draw(st.booleans()), cf=draw(st.booleans()),
                dt=draw(st.sampled_from(['float64', 'float64', 'float32'])))


@CHECK.sub(mats(), quick=1000, shards=1, budget=30)
def factored(c, t):
    """(A^T A + rho I) x = b and x (A A^T + rho I) = b via LU / Cholesky."""
    N, M = c['N'], c['M']
    A = mkarr(c['a'], (N, M), c['dt'])
    if c['rank'] < min(N, M):
        A = (mkarr(c['a'], (N, c['rank'])).dot(mkarr(c['a'], (c['rank'], M), salt=3))).astype(c['dt'])
    rho = c['rho']
    Ad = A.astype(float)
    G1 = Ad.T.dot(Ad) + rho * np.eye(M)
    G2 = Ad.dot(Ad.T) + rho * np.eye(N)
    kap = max(np.linalg.cond(G1), np.linalg.cond(G2))
    f32 = c['dt'] == 'float32'
    if kap > (1e3 if f32 else 1e10):
        t.skip('ill-conditioned')
    b1 = mkarr(c['b'], (M,) + ((c['cols'],) if c['cols'] else ()), c['dt'])
    b2 = mkarr(c['b'], ((c['cols'],) if c['cols'] else ()) + (N,), c['dt'], salt=4)
    fac = [('lu', sl.lu_factor(A, rho, check_finite=c['cf']), sl.lu_solve_ATAI, sl.lu_solve_AATI),
           ('cho', sl.cho_factor(A, rho, lower=c['lower'], check_finite=c['cf']), sl.cho_solve_ATAI, sl.cho_solve_AATI)]
    tol = (1e-5 if f32 else 1e-13) * 20 * kap
    for nm, f, s1, s2 in fac:
        A0, b10, b20 = A.copy(), b1.copy(), b2.copy()
        x1 = s1(A, rho, b1, *f, check_finite=c['cf'])
        x2 = s2(A, rho, b2, *f, check_finite=c['cf'])
        t.same(A, A0, 'A modified')
        t.same(b1, b10, 'b modified')
        t.same(b2, b20, 'b modified')
        r1 = np.linalg.solve(G1, b1.astype(float))
        r2 = np.linalg.solve(G2, b2.astype(float).T).T
        t.close(x1, r1, rtol=tol, atol=tol * np.abs(b1).max() / rho + 1e-12, msg=nm + ' ATAI')
        t.close(x2, r2, rtol=tol, atol=tol * np.abs(b2).max() / rho + 1e-12, msg=nm + ' AATI')
    t.nontrivial(N > 1 and M > 1)
    t.label('wide', N < M)


@st.composite
def sylv(draw):
    return dict(N=draw(st.integers(1, 5)), M=draw(st.integers(1, 5)), a=draw(arrspec(('normal', 'smallint', 'sparse'))),
                fa=draw(st.sampled_from(['sym', 'psd', 'diag1', 'diag2', 'eig'])),
                fb=draw(st.sampled_from(['sym', 'psd', 'diag1', 'diag2', 'eig'])),
                alpha=draw(st.floats(0.05, 20)))


def symarg(c, which, n, t):
    f = c['f' + which]
    salt = 11 if which == 'a' else 12
    if f in ('diag1', 'diag2'):
        d = mkarr(c['a'], (n,), salt=salt)
        full = np.diag(d)
        arg = d if f == 'diag1' else (d[:, None] if which == 'a' else d[None, :])
        return arg, full
    R = mkarr(c['a'], (n, n), salt=salt)
    S = R.dot(R.T) if f == 'psd' else 0.5 * (R + R.T)
    if n == 1 and f != 'eig':
        return S, S
    if f == 'eig':
        lam, Q = np.linalg.eigh(S)
        return (lam, Q), S
    return S, S


@CHECK.sub(sylv(), quick=1000, shards=1, budget=30)
def sylvester(c, t):
    """A X B + alpha X = C for symmetric/diagonal/eigen-decomposed A, B."""
    A, Af = symarg(c, 'a', c['N'], t)
    B, Bf = symarg(c, 'b', c['M'], t)
    C = mkarr(c['a'], (c['N'], c['M']), salt=13)
    ev = np.outer(np.linalg.eigvalsh(Af), np.linalg.eigvalsh(Bf)) + c['alpha']
    if np.abs(ev).min() < 1e-6 * max(1, np.abs(ev).max()):
        t.skip('singular')
    C0 = C.copy()
    X = sl.solve_symmetric_sylvester(A, B, C, c['alpha'])
    t.same(C, C0, 'C modified')
    k = np.abs(ev).max() / np.abs(ev).min()
    t.close(Af.dot(X).dot(Bf) + c['alpha'] * X, C, rtol=1e-11 * k, atol=1e-12 * k, msg='A X B + alpha X')
    t.nontrivial(c['N'] > 1 and c['M'] > 1)
    t.label('indefinite', (ev < c['alpha']).any())


@st.composite
def prods(draw):
    nd = draw(st.integers(1, 5))
    return dict(shp=[draw(st.integers(1, 3)) for _ in range(nd)], axis=draw(st.integers(-nd, nd - 1)),
                bx=[draw(st.booleans()) for _ in range(nd)], by=[draw(st.booleans()) for _ in range(nd)],
                x=draw(arrspec(K3)), dx=draw(st.sampled_from(['float64', 'complex128'])),
                dy=draw(st.sampled_from(['float64', 'complex128'])), m0=draw(st.integers(1, 4)),
                nb=draw(st.integers(1, 4)), r=draw(st.integers(1, 3)), cc=draw(st.integers(1, 3)))


@CHECK.sub(prods(), quick=1000, shards=1, budget=30)
def products(c, t):
    """inner, dot, block_circulant, rrs."""
    shp = c['shp']
    nd = len(shp)
    ax = c['axis'] % nd
    # broadcasting of one operand off the summation axis
    sx = [1 if (f and k != ax) else s for k, (s, f) in enumerate(zip(shp, c['bx']))]
    sy = [1 if (f and k != ax) else s for k, (s, f) in enumerate(zip(shp, c['by']))]
    x = mkarr(c['x'], sx, c['dx'])
    y = mkarr(c['x'], sy, c['dy'], salt=1)
    r = sl.inner(x, y, axis=c['axis'])
    full = [max(a, b) for a, b in zip(sx, sy)]
    exp = [1 if k == ax else s for k, s in enumerate(full)]
    t.check(list(r.shape) == exp, 'inner shape %s' % (r.shape,))
    ref = np.zeros(exp, dtype=complex)
    X = np.broadcast_to(x, full)
    Y = np.broadcast_to(y, full)
    for i in np.ndindex(*full):
        j = tuple(0 if k == ax else v for k, v in enumerate(i))
        ref[j] += X[i] * Y[i]
    t.close(r, ref, rtol=1e-11, atol=1e-13 * (1 + np.abs(x).max() * np.abs(y).max()), msg='inner')
    if nd >= 2:
        a = mkarr(c['x'], (c['m0'], shp[ax]), c['dx'], salt=2)
        b = mkarr(c['x'], shp, c['dy'], salt=3)
        p = sl.dot(a, b, axis=c['axis'])
        refp = np.moveaxis(np.tensordot(a, b, axes=(1, ax)), 0, ax)
        t.close(p, refp, rtol=1e-11, atol=1e-13 * (1 + np.abs(a).max() * np.abs(b).max()), msg='dot')
    blks = [mkarr(c['x'], (c['r'], c['cc']), c['dx'], salt=20 + k) for k in range(c['nb'])]
    Bc = sl.block_circulant(tuple(blks))
    n = c['nb']
    refb = np.block([[blks[(i - j) % n] for j in range(n)] for i in range(n)])
    t.same(Bc, refb, 'block_circulant')
    u, v = x.ravel(), mkarr(c['x'], x.shape, c['dx'], salt=5).ravel()
    den = max(np.sqrt(np.sum(np.abs(u)**2)), np.sqrt(np.sum(np.abs(v)**2)))
    e = 0.0 if den == 0 else np.sqrt(np.sum(np.abs(u - v)**2)) / den
    t.close(sl.rrs(u, v), e, rtol=1e-11, atol=1e-15, msg='rrs')
    t.eq(float(sl.rrs(np.zeros(3), np.zeros(3))), 0.0, 'rrs of zero')
    t.nontrivial(nd > 1)


@st.composite
def decs(draw):
    return dict(b=[draw(st.integers(1, 3)), draw(st.integers(1, 3))], c=[draw(st.integers(1, 3)), draw(st.integers(1, 3))],
                a=draw(arrspec(('normal', 'smallint', 'sparse'))), centre=draw(st.booleans()),
                N=draw(st.integers(1, 5)), M=draw(st.integers(1, 6)), dt=draw(st.sampled_from(['float64', 'complex128'])),
                low=draw(st.booleans()))


@CHECK.sub(decs(), quick=800, shards=1, budget=30)
def decompositions(c, t):
    """PCA, nearest Kronecker product, Kronecker SVD, adjoint validation."""
    U = mkarr(c['a'], (c['N'], c['M']))
    U0 = U.copy()
    B, S, C = sl.pca(U, centre=c['centre'])
    t.same(U, U0, 'U modified')
    V = U
    if c['centre']:
        t.close(C.ravel(), U.mean(axis=1), rtol=1e-12, msg='pca mean')
        V = U - U.mean(axis=1, keepdims=True)
    else:
        t.check(C is None, 'pca mean not None')
    cov = V.dot(V.T)
    t.close(B.T.dot(B), np.eye(B.shape[1]), rtol=1e-10, msg='pca basis not orthonormal')
    sc = 1 + np.abs(cov).max()
    t.check(np.abs(cov.dot(B) - B * S).max() <= 1e-10 * sc, 'pca eigen-equation')
    t.check(np.all(np.diff(S) <= 1e-10 * sc), 'pca order')
    t.close(B.dot(B.T.dot(V)), V, rtol=1e-10, atol=1e-10, msg='pca synthesis')
    # Kronecker
    bs, cs = tuple(c['b']), tuple(c['c'])
    A = mkarr(c['a'], (bs[0] * cs[0], bs[1] * cs[1]), c['dt'], salt=7)
    if c['low']:
        A = np.kron(mkarr(c['a'], bs, c['dt'], salt=8), mkarr(c['a'], cs, c['dt'], salt=9))
    # independent rearrangement
    R = np.zeros((bs[0] * bs[1], cs[0] * cs[1]), dtype=A.dtype)
    for i in range(bs[0]):
        for j in range(bs[1]):
            R[i * bs[1] + j] = A[i * cs[0]:(i + 1) * cs[0], j * cs[1]:(j + 1) * cs[1]].ravel()
    sv = np.linalg.svd(R, compute_uv=False)
    Bk, Ck = sl.nkp(A, bs, cs)
    t.check(Bk.shape == bs and Ck.shape == cs, 'nkp shapes')
    err = np.linalg.norm(A - np.kron(Bk, Ck))
    best = np.sqrt(np.sum(sv[1:]**2))
    t.check(err <= best + 1e-9 * (1 + sv[0]), 'nkp not nearest: %g > %g', err, best)
    Sg, Bs, Cs = sl.kpsvd(A, bs, cs)
    acc = np.zeros_like(A)
    t.check(np.all(np.diff(Sg) <= 1e-10 * (1 + sv[0])) and np.all(Sg >= 0), 'kpsvd order')
    for i in range(len(Sg)):
        acc = acc + Sg[i] * np.kron(Bs[..., i], Cs[..., i])
        e = np.linalg.norm(A - acc)
        b = np.sqrt(np.sum(sv[i + 1:]**2))
        t.check(e <= b + 1e-9 * (1 + sv[0]), 'kpsvd %d-term error %g > %g', i + 1, e, b)
    t.close(acc, A, rtol=1e-9, atol=1e-9, msg='kpsvd sum')
    for bad in ((bs[0] + 1, bs[1]), (bs[0], bs[1] + 1)):
        for fn in (sl.nkp, sl.kpsvd):
            try:
                fn(A, bad, cs)
            except ValueError:
                continue
            t.check(False, 'incompatible shapes accepted')
    # adjoint validation
    P = mkarr(dict(seed=c['a']['seed'], kind='normal'), (3, 2 * c['N']), salt=15)
    fw = lambda z: P.dot(z.reshape(-1))
    ad = lambda z: P.T.dot(z.reshape(-1))
    t.check(sl.valid_adjoint(fw, ad, (c['N'], 2), (3,)), 'true adjoint rejected')
    t.check(sl.valid_adjoint(fw, ad, (c['N'], 2), (3,), eps=None) < 1e-7, 'adjoint error value')
    Q = P.copy()
    Q[1, 0] += 1.0 + abs(Q[1, 0])
    t.check(not sl.valid_adjoint(fw, lambda z: Q.T.dot(z.reshape(-1)), (c['N'], 2), (3,)), 'false adjoint accepted')
    t.nontrivial(c['N'] > 1 and c['M'] > 1)
