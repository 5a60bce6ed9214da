"""C31: square roots, regularised solves and covariance validation."""
from props import scenario
from props.common import np, gaussian, natural, snap, unchanged

JIT = 1e-10


def half(A):
    return (A + A.T) / 2


def pd(ctx, A):
    ok = None
    for m in ctx.minors(A):
        ok = (m > 0) if ok is None else ok & (m > 0)
    return ok


@scenario('C31', [dict(d=d, form=f) for d in (1, 2, 3) for f in ('m', 'n') if (d, f) != (3, 'n')] + [dict(d=5, form='m', start=0.9), dict(d=4, form='n', start=0.9)], [dict(d=4, form='m'), dict(d=3, form='n')])
def square_root(ctx, d, form):
    """chol_cov of a Gaussian: lower triangular, positive diagonal, L L' = covariance, on every read."""
    A, v = ctx.spd('A', d), ctx.vec('v', d)
    if form == 'n':
        ctx.assume(np.trace(A) >= 1e-10, 'precisions are not in the vague range')
    g = gaussian(v, A) if form == 'm' else natural(A, v)
    P = A.copy() if form == 'm' else ctx.inv(A)
    for i in (1, 2):
        L = g.chol_cov
        ctx.true('shape', np.shape(L) == (d, d))
        ctx.eq('L L^T, read %d' % i, L @ L.T, P)
        for a in range(d):
            ctx.true('positive diagonal', L[a, a] > 0)
            for b in range(a + 1, d):
                ctx.eq('lower triangular', L[a, b], 0, tol=0)
    ctx.eq('covariance afterwards', g.cov, P)


@scenario('C31', [dict(d=1), dict(d=2), dict(d=3, start=0.8)])
def square_roots(ctx, d):
    """Roots of several Gaussians, read in turn: each belongs to its own covariance."""
    gs = []
    for i in range(3):
        P = ctx.spd('P%d' % i, d)
        gs.append((gaussian(ctx.vec('m%d' % i, d), P), P.copy()))
    for r in (1, 2):
        for i, (g, P) in enumerate(gs):
            L = g.chol_cov
            ctx.eq('L L^T of %d, read %d' % (i, r), L @ L.T, P)
            ctx.eq('covariance of %d' % i, g.cov, P)


@scenario('C31', [dict(d=d, jitter=j, sym=s) for d, j, s in ((1, None, True), (2, None, True), (2, 'any', True), (2, None, False), (2, 'any', False), (3, 'any', True))] + [dict(d=4, jitter='any', sym=True, start=0.8), dict(d=5, jitter=None, sym=False, start=0.9)] + [dict(d=d, jitter='zero', sym=s) for d in (1, 2) for s in (True, False)] +
          [dict(d=d, jitter='any', sym=True, lower=False, start=0 if d < 4 else 0.9) for d in (1, 2, 3, 4, 5, 7)],
          [dict(d=3, jitter='any', sym=False), dict(d=4, jitter=None, sym=True)])
def jittered_root(ctx, d, jitter, sym, lower=True):
    from Utils.linalg import jittered_chol
    A = ctx.sym('A', d) if sym else ctx.mat('A', d, d, hint=ctx.dominant(d))
    keep = A.copy()
    j = ctx.const(0) if jitter == 'zero' else ctx.real('jitter', '+', hint=0.125) if jitter else None
    M = half(keep) + (j if jitter else ctx.const(JIT)) * ctx.array(np.eye(d))
    ok = ctx.decide(pd(ctx, M))
    try:
        L = jittered_chol(A, **dict(dict(jitter=j) if jitter else {}, **({} if lower else dict(lower=False))))
    except np.linalg.LinAlgError:
        ctx.true('refused only if the regularised matrix is not positive definite', not ok)
        return
    ctx.true('accepted only if the regularised matrix is positive definite', ok)
    if not lower:
        L = L.T
    ctx.eq('L L^T', L @ L.T, M)
    for a in range(d):
        for b in range(a + 1, d):
            ctx.eq('lower triangular', L[a, b], 0, tol=0)
    ctx.eq('argument not changed', A, keep, tol=0)


@scenario('C31', [dict(d=d, k=k, jitter=j, sym=s, how=h) for d, k, j, s, h in
           ((1, 0, None, True, 'gen'), (2, 0, None, True, 'gen'), (2, 2, None, True, 'pos'), (2, 0, 'any', True, 'pos'), (2, 0, None, False, 'gen'),
            (2, 1, 'any', False, 'sym'), (3, 0, 'any', True, 'gen'), (2, 0, None, True, 'default'))] + [dict(d=d, k=d - 1, jitter='zero', sym=True, how='gen') for d in (1, 2)] + [dict(d=4, k=2, jitter='any', sym=False, how='pos', start=0.9), dict(d=5, k=0, jitter=None, sym=True, how='gen', start=0.9)],
          [dict(d=3, k=2, jitter='any', sym=False, how='pos'), dict(d=4, k=0, jitter=None, sym=True, how='gen')])
def regularised_solve(ctx, d, k, jitter, sym, how):
    """Also for matrices that are not positive definite, with every declared structure."""
    from Utils.linalg import jittered_solve
    A = ctx.sym('A', d) if sym else ctx.mat('A', d, d, hint=ctx.dominant(d))
    b = ctx.mat('b', d, k) if k else ctx.vec('b', d)
    keep = snap(A, b)
    j = ctx.const(0) if jitter == 'zero' else ctx.real('jitter', '+', hint=0.125) if jitter else None
    M = half(keep[0]) + (j if jitter else ctx.const(JIT)) * ctx.array(np.eye(d))
    ctx.assume(ctx.det(M) != 0, 'the regularised matrix is not singular')
    kw = dict(jitter=j) if jitter else {}
    if how != 'default':
        kw['assume_a'] = how
    x = jittered_solve(A, b, **kw)
    ctx.true('shape', np.shape(x) == np.shape(b), note='%s' % (np.shape(x),))
    ctx.eq('solution', M @ x, b)
    unchanged(ctx, 'arguments', (A, b), keep)


@scenario('C31', [dict(d=d) for d in (1, 2, 3)] + [dict(d=4, start=0.8), dict(d=5, start=0.8)])
def validation(ctx, d):
    """validate_covariance accepts exactly the positive-definite covariances; symmetrize is the symmetric part."""
    from Utils.linalg import validate_covariance, symmetrize
    A, m = ctx.sym('A', d), ctx.vec('m', d)
    g = gaussian(m, A)
    ok = ctx.decide(pd(ctx, A))
    try:
        validate_covariance(g)
        ctx.true('accepted only if positive definite', ok)
    except np.linalg.LinAlgError:
        ctx.true('refused only if not positive definite', not ok)
    ctx.eq('covariance', g.cov, A, tol=0)
    B = ctx.mat('B', d, d)
    keep = B.copy()
    S = symmetrize(B)
    ctx.eq('symmetric part', S, (keep + keep.T) / 2)
    ctx.eq('argument not changed', B, keep, tol=0)
