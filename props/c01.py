"""C01: moment and natural parameters describe the same Gaussian."""
from props import scenario
from props.common import np, cov, SPARSE

VAGUE = 'trace of the precision at least 1e-10'


@scenario('C01', [dict(d=d, first=f) for d in (1, 2, 3) for f in ('precision', 'shift')] +
          [dict(d=d, first='shift', pat=p) for d in (3, 4) for p in SPARSE] + [dict(d=5, first='precision', start=0.9), dict(d=6, first='precision', pat='chain', start=0.5)],
          [dict(d=4, first='precision')], budget=60)
def from_moments(ctx, d, first, pat=None):
    from StateModel import Gaussian
    m, P = ctx.vec('m', d), cov(ctx, 'P', d, pat)
    m0, P0 = m.copy(), P.copy()
    g = Gaussian(m, P)
    L = ctx.inv(P0)
    if first == 'shift':
        ctx.eq('shift', g.shift, L @ m0)
    ctx.eq('precision', g.precision, L)
    ctx.eq('precision symmetric', g.precision, g.precision.T, tol=0)
    ctx.eq('shift again', g.shift, L @ m0)
    ctx.eq('mean', g.mean, m0)
    ctx.eq('cov', g.cov, P0)
    ctx.true('dim', g.dim == d)
    h = Gaussian.from_natural(g.precision, g.shift)
    ctx.assume(np.trace(L) >= 1e-10, VAGUE)
    ctx.eq('round trip cov', h.cov, P0)
    ctx.eq('round trip mean', h.mean, m0)
    ctx.true('dim of round trip', h.dim == d)


@scenario('C01', [dict(d=d, first=f) for d in (1, 2, 3) for f in ('mean', 'cov')] +
          [dict(d=d, first='mean', pat=p) for d in (3, 4) for p in SPARSE] + [dict(d=5, first='cov', start=0.9), dict(d=6, first='cov', pat='chain', start=0.5)],
          [dict(d=4, first='mean')], budget=60)
def from_natural(ctx, d, first, pat=None):
    from StateModel import Gaussian
    L, s = cov(ctx, 'L', d, pat), ctx.vec('s', d)
    ctx.assume(np.trace(L) >= 1e-10, VAGUE)
    L0, s0 = L.copy(), s.copy()
    g = Gaussian(precision_mat=L, shift_vec=s)
    P = ctx.inv(L0)
    if first == 'cov':
        ctx.eq('cov', g.cov, P)
        ctx.eq('cov symmetric', g.cov, g.cov.T, tol=0)
    ctx.eq('mean', g.mean, P @ s0)
    ctx.eq('cov afterwards', g.cov, P)
    ctx.eq('precision', g.precision, L0)
    ctx.eq('shift', g.shift, s0)
    ctx.true('dim', g.dim == d)
    h = Gaussian(mean_vec=g.mean, cov_mat=g.cov)
    ctx.eq('round trip precision', h.precision, L0)
    ctx.eq('round trip shift', h.shift, s0)


@scenario('C01', [dict(d=1), dict(d=2)])
def scaled_information(ctx, d):
    """Precisions of any scale from the vague limit up: the conversion does not depend on the scale of the problem."""
    from StateModel import Gaussian
    c = ctx.real('c', '+', hint=1e-7)
    L, s = ctx.spd('L', d, scale=c), ctx.vec('s', d)
    ctx.assume(np.trace(L) >= 1e-10, VAGUE)
    g = Gaussian.from_natural(L, s)
    P = ctx.inv(L)
    ctx.eq('information times covariance', L @ g.cov, ctx.array(np.eye(d)))
    ctx.eq('information times mean', L @ g.mean, s)


@scenario('C01', [dict(d=1), dict(d=2)])
def constructors(ctx, d):
    """Keyword, positional and scalar construction give the same distribution; density ratios do not depend on it."""
    from StateModel import Gaussian
    m, P = ctx.vec('m', d), ctx.spd('P', d)
    a = Gaussian(mean_vec=m, cov_mat=P)
    b = Gaussian(m, P)
    L = ctx.inv(P)
    c = Gaussian(precision_mat=L, shift_vec=L @ m)
    ctx.assume(np.trace(L) >= 1e-10, VAGUE)
    for n, g in (('keywords', a), ('positional', b), ('natural', c), ('copy', b.copy()), ('copy of natural', c.copy())):
        ctx.eq(n + ' mean', g.mean, m)
        ctx.eq(n + ' cov', g.cov, P)
        ctx.eq(n + ' precision', g.precision, L)
        ctx.eq(n + ' shift', g.shift, L @ m)
    if d == 1:
        e = Gaussian(m[0], P)
        ctx.eq('scalar mean', e.mean, m)
        ctx.true('scalar dim', e.dim == 1)
        ctx.eq('scalar mean, shift', e.shift, L @ m)


@scenario('C01', [dict(d=1), dict(d=2), dict(d=1, natural=True), dict(d=2, natural=True)])
def work_array(ctx, d, natural=False):
    """Two Gaussians built one after the other from the same two arrays, whose content changes in between: the second
    describes the new content."""
    from StateModel import Gaussian
    m, P, n, Q = ctx.vec('m', d), ctx.spd('P', d), ctx.vec('n', d), ctx.spd('Q', d)
    ctx.assume(np.trace(P) >= 1e-10, VAGUE)
    ctx.assume(np.trace(Q) >= 1e-10, VAGUE)
    wm, wP = m.copy(), P.copy()
    for v, S in ((m, P), (n, Q)):
        wm[:] = v
        wP[:] = S
        inv = ctx.inv(S)
        if natural:
            g = Gaussian.from_natural(wP, wm)
            ctx.eq('cov', g.cov, inv)
            ctx.eq('mean', g.mean, inv @ v)
        else:
            g = Gaussian(wm, wP)
            ctx.eq('precision', g.precision, inv)
            ctx.eq('shift', g.shift, inv @ v)
