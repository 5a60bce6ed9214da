"""C04: degenerate Gaussians."""
from props import scenario
from props.common import np

JIT = 1e-10


@scenario('C04', [dict(d=d) for d in (1, 2, 3, 5)], [dict(d=4)])
def vague(ctx, d):
    from StateModel import Gaussian
    L, s = ctx.sym('L', d, hint=np.zeros((d, d))), ctx.vec('s', d)
    ctx.assume(np.trace(L) < 1e-10, 'trace of the precision below 1e-10')
    g = Gaussian.from_natural(L, s)
    ctx.eq('mean', g.mean, np.zeros(d))
    ctx.eq('cov', g.cov, 1e10 * np.eye(d))
    ctx.eq('precision', g.precision, L)
    ctx.eq('shift', g.shift, s)
    ctx.true('dim', g.dim == d)


@scenario('C04', [dict(d=d) for d in (1, 2, 3, 5, 40)])
def constants(ctx, d):
    from StateModel import Gaussian
    from StateModel.Gaussian import GaussianFactor
    for n, f in (('factor', Gaussian.as_factor(d)), ('factor class', GaussianFactor(d))):
        ctx.eq(n + ' precision', f.precision, np.zeros((d, d)))
        ctx.eq(n + ' shift', f.shift, np.zeros(d))
        ctx.eq(n + ' mean', f.mean, np.zeros(d))
        ctx.eq(n + ' cov', f.cov, 1e10 * np.eye(d))
        ctx.true(n + ' dim', f.dim == d)
    g = Gaussian.as_marginal(d)
    ctx.eq('marginal mean', g.mean, np.zeros(d))
    ctx.eq('marginal cov', g.cov, 1e10 * np.eye(d))
    ctx.eq('marginal precision', 1e10 * g.precision, np.eye(d))
    ctx.eq('marginal shift', g.shift, np.zeros(d))
    ctx.true('marginal dim', g.dim == d)


def outcome(ctx, label, read, M, vec, d):
    """read() gives inv(M + jitter) and the product with vec, or LinAlgError exactly when that matrix is singular."""
    A = (M + M.T) / 2 + ctx.array(JIT * np.eye(d))
    det = ctx.det(A)
    try:
        X, v = read()
    except np.linalg.LinAlgError:
        ctx.true(label + ' LinAlgError only if singular', det == 0 if ctx.symbolic else abs(det) <= 1e-12 * (1 + np.max(np.abs(A))) ** d)
        return
    if ctx.symbolic:
        ctx.assume(det != 0)
    else:
        ctx.assume(abs(det) > 1e-9 * np.max(np.abs(A)) ** d)
    ctx.eq(label + ' times matrix', X @ A, np.eye(d), tol=1e-5)
    ctx.eq(label, v, X @ vec, tol=1e-5)


@scenario('C04', [dict(d=2, asym=False), dict(d=2, asym=True)], [dict(d=3, asym=False)], max_paths=200)
def improper_precision(ctx, d, asym):
    from StateModel import Gaussian
    ctx.strict()
    L = ctx.mat('L', d, d) if asym else ctx.sym('L', d, hint=[[Fr(2 - 3 * i) if i == j else 1 for j in range(d)] for i in range(d)])
    s = ctx.vec('s', d)
    ctx.assume(np.trace(L) >= 1e-10, 'trace of the precision at least 1e-10')
    improper(ctx, L, d)
    g = Gaussian.from_natural(L, s)
    outcome(ctx, 'cov', lambda: (g.cov, g.mean), L, s, d)
    ctx.eq('precision', g.precision, L)
    ctx.eq('shift', g.shift, s)


@scenario('C04', [dict(d=1, asym=False), dict(d=2, asym=False), dict(d=2, asym=True)], [dict(d=3, asym=False)], max_paths=200)
def improper_covariance(ctx, d, asym):
    from StateModel import Gaussian
    ctx.strict()
    P = ctx.mat('P', d, d) if asym else ctx.sym('P', d, hint=[[Fr(2 - 3 * i) if i == j else 1 for j in range(d)] for i in range(d)])
    m = ctx.vec('m', d)
    improper(ctx, P, d)
    g = Gaussian(m, P)
    outcome(ctx, 'precision', lambda: (g.precision, g.shift), P, m, d)
    ctx.eq('cov', g.cov, P)
    ctx.eq('mean', g.mean, m)


def improper(ctx, M, d):
    """Neither triangle of M, completed symmetrically, is positive definite."""
    for lower in (True, False):
        S = M.copy()
        for i in range(d):
            for j in range(i):
                if lower:
                    S[j, i] = M[i, j]
                else:
                    S[i, j] = M[j, i]
        ms = ctx.minors(S)
        bad = ms[0] <= 0
        for x in ms[1:]:
            bad = bad | (x <= 0)
        ctx.assume(bad, 'matrix not positive definite (whichever triangle is read)')


def Fr(x):
    return x
