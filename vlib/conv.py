"""Running a solver until it is at the reference optimum."""
import time
import numpy as np

RT = 1e-3
PLAN = ((300, 1e-6), (1200, 1e-8), (3000, 0.0))
FPLAN = ((500, 1e-7), (4000, 0.0), (12000, 0.0))


def rounds(b, evalfn, good, plan):
    F, ok, X = np.inf, False, None
    opt = b.opt if hasattr(b, 'opt') else b.cbpdn.opt
    for k, (n, tl) in enumerate(plan):
        opt['MaxMainIter'] = n
        opt['RelStopTol'] = tl
        X = b.solve()
        F, ok = evalfn(b, X)
        if ok and good(F):
            return k, F, ok, X
    return None, F, ok, X


def converge(t, b, fallbacks, evalfn, Fref, F0, what, strict=True, plan=PLAN, fplan=FPLAN):
    """Run the solver until its objective is within tolerance.  Penalty or step
    parameters drawn at random can make convergence arbitrarily slow, so a run
    that is still moving is repeated (same problem and options) with other
    penalties before it is called a failure; a run whose own normalised
    residuals are negligible but which is not at the optimum is a failure at
    once."""
    tol = RT * abs(Fref) + 1e-5 * F0 + 1e-10        # generated data are of order one

    def good(F):
        return F <= Fref + tol
    try:
        k, F, ok, X = rounds(b, evalfn, good, plan)
    except (ValueError, ArithmeticError, np.linalg.LinAlgError):
        # adaptation of the penalty by residual balancing may diverge
        rho = float(np.max(getattr(getattr(b, 'cbpdn', b), 'rho', 1.0)))
        if 1e-9 < rho < 1e9:
            raise
        k, F, ok = None, np.inf, False
    if k is not None:
        t.label('round%d' % k)
        return b, X
    its = b.getitstat()
    if strict and np.isfinite(F) and len(its.Iter) and hasattr(its, 'PrimalRsdl'):
        r = max(its.PrimalRsdl[-1], its.DualRsdl[-1])
        t.check(not r < 1e-9, '%s: residuals %.2g but objective %.8g, reference optimum %.8g, feasible: %s' % (
            what, r, F, Fref, ok))
    tried = []
    for mk in fallbacks:
        b = mk()
        k, F, ok, X = rounds(b, evalfn, good, fplan)
        if k is not None:
            t.label('fallback')
            return b, X
        if np.isfinite(F):
            tried.append((not ok, F, len(tried), b))
    # slow progress is not a wrong answer: continue the most successful runs
    for _, F, _, b in sorted(tried, key=lambda v: v[:3])[:2]:
        t0 = time.time()
        while time.time() - t0 < 10.0:
            k, F, ok, X = rounds(b, evalfn, good, ((fplan[-1][0], 0.0),))
            if k is not None:
                t.label('fallback, long')
                return b, X
    t.check(False, '%s: objective %.8g, reference optimum %.8g (tolerance %.2g), feasible: %s' % (
        what, F, Fref, tol, ok))
