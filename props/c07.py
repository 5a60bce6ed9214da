"""C07: the Taylor transform."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, memory


@scenario('C07', [dict(n=n, k=k, style=s) for n in (1, 2, 3) for k in (1, 2, 3) for s in ('batch', 'vec')] + [dict(n=6, k=5, style='batch'), dict(n=5, k=1, style='vec')],
          [dict(n=n, k=k, style=s) for n, k in ((4, 4), (5, 2), (2, 5)) for s in ('batch', 'vec')])
def linearisation(ctx, n, k, style):
    from MomentMatching import TaylorTransform
    f = ctx.fn('f', n, k, style)
    m, P = ctx.vec('m', n), ctx.spd('P', n)
    m0, P0 = snap(m, P)
    z, S, C = TaylorTransform(dim=n)(f, gaussian(m, P))
    J = f.jac_at(m0)
    ctx.eq('mean', np.atleast_1d(z), f.at(m0))
    ctx.eq('cov', S, J @ P0 @ J.T)
    ctx.eq('cross cov', C, P0 @ J.T)
    unchanged(ctx, 'state', (m, P), (m0, P0))


@scenario('C07', [dict(n=1, k=1), dict(n=2, k=1), dict(n=1, k=2), dict(n=3, k=2)])
def affine(ctx, n, k):
    import autograd.numpy as anp
    from MomentMatching import TaylorTransform
    A, b = ctx.mat('A', k, n), ctx.vec('b', k)
    m, P = ctx.vec('m', n), ctx.spd('P', n)
    z, S, C = TaylorTransform(dim=n)(lambda x: anp.dot(A, x) + b, gaussian(m, P))
    ctx.eq('mean', np.atleast_1d(z), A @ m + b)
    ctx.eq('cov', S, A @ P @ A.T)
    ctx.eq('cross cov', C, P @ A.T)


@scenario('C07', [dict(n=1), dict(n=2)])
def polynomial(ctx, n):
    """Composite nonlinear functions: products, powers and trigonometric terms."""
    import autograd.numpy as anp
    from MomentMatching import TaylorTransform
    a, b = ctx.real('a'), ctx.real('b')
    m, P = ctx.vec('m', n), ctx.spd('P', n)

    def f(x):
        return a * x ** 3 + b * x * x[0] + anp.sin(x)
    z, S, C = TaylorTransform(dim=n)(f, gaussian(m, P))
    J = np.zeros((n, n)) * m[0]
    for i in range(n):
        for j in range(n):
            if i == j:
                J[i, i] = J[i, i] + 3 * a * m[i] ** 2 + b * m[0] + ctx.cos(m[i])
            if j == 0:
                J[i, j] = J[i, j] + b * m[i]
    ctx.eq('mean', np.atleast_1d(z), np.array([a * m[i] ** 3 + b * m[i] * m[0] + ctx.sin(m[i]) for i in range(n)]))
    ctx.eq('cov', S, J @ P @ J.T)
    ctx.eq('cross cov', C, P @ J.T)


@scenario('C07', [dict(n=2, k=2)])
def reuse(ctx, n, k):
    from MomentMatching import TaylorTransform
    f, g = ctx.fn('f', n, k), ctx.fn('g', n, 1, 'vec')
    tt = TaylorTransform(dim=n)
    m, P, o, O = ctx.vec('m', n), ctx.spd('P', n), ctx.vec('o', n), ctx.spd('O', n)
    first = tt(f, gaussian(m, P))
    keep = [np.array(x) for x in first]
    z, S, C = tt(g, gaussian(o, O))
    J = g.jac_at(o)
    ctx.eq('cov', S, J @ O @ J.T)
    ctx.eq('mean', np.atleast_1d(z), g.at(o))
    ctx.eq('cross cov', C, O @ J.T)
    for i in range(3):
        ctx.eq('first result %d' % i, first[i], keep[i])


@scenario('C07', [dict(n=n, k=k, style=s) for n in (1, 2, 3, 4) for k in (1, 2, 3) for s in ('vec', 'batch')])
def differences(ctx, n, k, style):
    """The numerical Jacobian is exact for quadratic functions (central differences), for every step size."""
    from MomentMatching import TaylorTransform
    eps = ctx.real('eps', '+', hint=0.25)
    ctx.assume(eps >= 0.01, 'step not tiny (the replay works with floats)')
    A, B, b = ctx.mat('A', k, n), ctx.mat('B', k, n), ctx.vec('b', k)
    x = ctx.vec('x', n)
    x0 = snap(x)

    def f(z):
        z = np.asarray(z)
        y = np.dot(A, z) + np.dot(B, z * z) + b + z[0] * z[-1]
        return y if style == 'vec' else y[None, :]
    J = TaylorTransform.numerical_jacobian(f, x, eps)
    want = A + 2 * B * x[None, :]
    for i in range(n):
        e = np.zeros((n,)) + 0 * x
        e[i] = 1
        want[:, i] = want[:, i] + e[0] * x[-1] + x[0] * e[-1]
    got = np.asarray(J)
    ctx.true('size', got.size == k * n)
    ctx.eq('Jacobian', got.reshape(k, n), want)
    ctx.eq('default step', np.asarray(TaylorTransform.numerical_jacobian(lambda z: np.dot(A, np.asarray(z)), x)).reshape(k, n), A, tol=1e-5)
    unchanged(ctx, 'point', (x,), x0)


@scenario('C07', [dict(n=1, k=1), dict(n=2, k=1), dict(n=1, k=2), dict(n=2, k=2), dict(n=4, k=3, start=0.9)], [dict(n=3, k=2)])
def one_argument_changed(ctx, n, k):
    from MomentMatching import TaylorTransform
    memory(ctx, TaylorTransform(dim=n), n, k)
