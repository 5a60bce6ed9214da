"""C26: reported covariances and precisions are exactly symmetric although numerical results are not."""
from props import scenario
from props.common import np, gaussian, natural


def symmetric(ctx, label, M):
    M = np.asarray(M)
    ctx.true(label + ' is a square matrix', M.ndim == 2 and M.shape[0] == M.shape[1], note='shape %s' % (M.shape,))
    if M.ndim == 2 and M.shape[0] == M.shape[1]:
        ctx.eq(label + ' symmetric', M, M.T.copy(), tol=0)


@scenario('C26', [dict(d=2, to='moment', deg=False), dict(d=2, to='natural', deg=False), dict(d=3, to='moment', deg=False, start=0.5),
                  dict(d=3, to='natural', deg=False, start=0.5), dict(d=2, to='moment', deg=True), dict(d=2, to='natural', deg=True),
                  dict(d=4, to='moment', deg=False, start=0.9), dict(d=5, to='natural', deg=False, start=0.9), dict(d=3, to='moment', deg=True, start=0.8)],
          [dict(d=4, to='moment', deg=False), dict(d=4, to='natural', deg=False)])
def conversion(ctx, d, to, deg):
    """deg: any symmetric matrix, so that the fallback for matrices that are not positive definite is taken as well."""
    A = ctx.sym('A', d) if deg else ctx.spd('A', d)
    v = ctx.vec('v', d)
    with ctx.perturb():
        if to == 'moment':
            g = natural(A, v)
            symmetric(ctx, 'covariance', g.cov)
            symmetric(ctx, 'covariance of a copy', natural(A, v).copy().cov)
        else:
            g = gaussian(v, A)
            symmetric(ctx, 'precision', g.precision)
            symmetric(ctx, 'precision of a copy', gaussian(v, A).copy().precision)


@scenario('C26', [dict(d=2, forms='nn'), dict(d=2, forms='mn', start=0.5), dict(d=2, forms='nm', start=0.5), dict(d=2, forms='mm', start=0.8),
                             dict(d=3, forms='nn', start=0.5), dict(d=4, forms='mm', start=0.95)], [dict(d=3, forms='mm')])
def product(ctx, d, forms):
    p = ctx.perturb()
    with p:
        gs = []
        for i, f in enumerate(forms):
            A = p.add(ctx.spd('A%d' % i, d))        # slightly asymmetric inputs
            gs.append((gaussian if f == 'm' else (lambda v, P: natural(P, v)))(ctx.vec('v%d' % i, d), A))
        q = gs[0] * gs[1]
        symmetric(ctx, 'precision of the product', q.precision)
        symmetric(ctx, 'covariance of the product', q.cov)


@scenario('C26', [dict(n=1, k=2), dict(n=2, k=2), dict(n=2, k=3), dict(n=2, k=1), dict(n=3, k=2, start=0.5), dict(n=4, k=3, start=0.9)], [dict(n=3, k=3), dict(n=4, k=2)])
def unscented(ctx, n, k):
    from MomentMatching import UnscentedTransform
    f = ctx.fn('f', n, k)
    ut = UnscentedTransform(dim=n, alpha=ctx.real('alpha', '+', hint=1.25), beta=ctx.real('beta', hint=2), kappa=ctx.real('kappa', '+', hint=1))
    m, P = ctx.vec('m', n), ctx.spd('P', n)
    p = ctx.perturb()
    with p:
        if isinstance(getattr(ut, 'W', None), np.ndarray):
            ut.W = p.add(ut.W)                      # rounding inside the products with the weight matrix
        z, S, C = ut(f, gaussian(m, P))
    symmetric(ctx, 'covariance', S)


@scenario('C26', [dict(n=1), dict(n=2), dict(n=4, start=0.9)], [dict(n=3)])
def weights(ctx, n):
    """A covariance of the propagated points is symmetric for every symmetric covariance of the state."""
    from MomentMatching import UnscentedTransform
    f = ctx.fn('f', n, 2)
    z, S, C = UnscentedTransform(n)(f, gaussian(ctx.vec('m', n), ctx.spd('P', n)))
    symmetric(ctx, 'covariance', S)


@scenario('C26', [dict(n=2, k=2)])
def monte_carlo_and_taylor(ctx, n, k):
    from MomentMatching import TaylorTransform, MonteCarloTransform
    src = ctx.source()
    f = ctx.fn('f', n, k)
    g = gaussian(ctx.vec('m', n), ctx.spd('P', n))
    symmetric(ctx, 'Monte Carlo covariance', MonteCarloTransform(n, 3)(f, g)[1])
    symmetric(ctx, 'linearised covariance', TaylorTransform(n)(ctx.fn('g', n, k), g)[1])


@scenario('C26', [dict(op=o, d=2, k=k, power=p) for o, k in (('trans', 2), ('meas', 1), ('meas', 2)) for p in ('one', 'any')] +
          [dict(op='back', d=2, k=2, power='one'), dict(op='back', d=2, k=2, power='any', start=0.8), dict(op='trans', d=3, k=3, power='any'),
           dict(op='meas', d=4, k=3, power='any', start=0.95), dict(op='back', d=4, k=4, power='any', start=0.98), dict(op='trans', d=5, k=5, power='any', start=0.95)],
          [dict(op='meas', d=3, k=2, power='any'), dict(op='meas', d=2, k=3, power='any'), dict(op='back', d=3, k=3, power='one')], budget=60)
def updates(ctx, op, d, k, power):
    """Arbitrary, not quite symmetric, results of the moment-matching rule and of the linear algebra, noise not quite symmetric."""
    from MomentMatching.Estimator import Estimator
    p = ctx.perturb()

    def spd(name, n):
        A = ctx.spd(name, n)
        return A if n < 4 else A + 8 * n * ctx.array(np.eye(n))        # proper despite the errors
    T, M = ctx.transform('T', d, d, asym=True), ctx.transform('M', d, k, asym=True)
    with p:
        Q, R = p.add(spd('Q', d)), p.add(spd('R', k))
        a = ctx.const(1) if power == 'one' else ctx.real('power', '+', hint=0.5)
        if power == 'one':
            a = 1
        est = Estimator(T, M, Q, R, power=a, damping=1)
        g = gaussian(ctx.vec('m', d), p.add(spd('P', d)))
        f, h = ctx.fn('f', d, d), ctx.fn('h', d, k)
        try:
            if op == 'trans':
                out = est.proj_trans(f, g)
            elif op == 'meas':
                out = est.proj_meas(h, g, ctx.vec('y', k))
            else:
                nxt = gaussian(ctx.vec('nm', d), p.add(spd('N', d)))
                cav = natural(p.add(spd('L', d)), ctx.vec('l', d))
                out = est.proj_back(f, g, cav, nxt if power == 'one' else None)
        except np.linalg.LinAlgError:
            ctx.true('an update may be refused', True)
            return
        symmetric(ctx, op + ' covariance', out.cov)
    symmetric(ctx, op + ' covariance again', out.cov)
