"""C08: the Monte Carlo transform and sampling."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, cov, SPARSE


def law(ctx, label, draw, mean, cov, src, width):
    """draw() as a function of the standard normals z: affine, with the right mean and covariance (rows independent)."""
    src.reset()
    X = draw()
    n = src.n
    zs = [ctx.real('w#%d' % i) for i in range(n)]
    N, d = X.shape
    src.reset(lambda i: 0)
    base = draw()
    cols = []
    for j in range(n):
        src.reset(lambda i: 1 if i == j else 0)
        cols.append(draw() - base)
    src.reset()
    ctx.eq(label + ' affine in the random numbers', X, base + sum((zs[j] * cols[j] for j in range(n)), 0 * base))
    B = np.array([c.reshape(-1) for c in cols]).T.reshape(N * d, n)
    ctx.eq(label + ' mean', base, np.array([mean] * N))
    V = B @ B.T
    E = np.zeros((N * d, N * d)) * mean[0]
    for i in range(N):
        E[i * d:(i + 1) * d, i * d:(i + 1) * d] = cov
    ctx.eq(label + ' covariance, rows independent', V, E)


@scenario('C08', [dict(d=1, N=1), dict(d=1, N=3), dict(d=2, N=2), dict(d=5, N=1, start=0.8), dict(d=1, N=9)] + [dict(d=4, N=2, pat=p) for p in SPARSE], [dict(d=2, N=4), dict(d=3, N=2)])
def sampling(ctx, d, N, pat=None):
    from StateModel import Gaussian
    src = ctx.source()
    m, P = ctx.vec('m', d), cov(ctx, 'P', d, pat)
    m0, P0 = snap(m, P)
    g = Gaussian(m, P)
    X = g.sample(N)
    ctx.true('shape', np.shape(X) == (N, d), note='shape %s' % (np.shape(X),))
    law(ctx, 'samples', lambda: g.sample(N), m0, P0, src, d)
    unchanged(ctx, 'state', (m, P), (m0, P0))


@scenario('C08', [dict(n=1, k=1, N=2), dict(n=1, k=1, N=3), dict(n=2, k=1, N=2), dict(n=1, k=2, N=3), dict(n=2, k=2, N=3), dict(n=2, k=3, N=2), dict(n=1, k=1, N=12, start=0.8), dict(n=3, k=2, N=5, start=0.8)] + [dict(n=3, k=2, N=3, pat=p) for p in SPARSE],
          [dict(n=2, k=2, N=5), dict(n=3, k=2, N=4), dict(n=1, k=1, N=8)], budget=60)
def moments(ctx, n, k, N, pat=None):
    from MomentMatching import MonteCarloTransform
    src = ctx.source()
    f = ctx.fn('f', n, k)
    m, P = ctx.vec('m', n), cov(ctx, 'P', n, pat)
    m0, P0 = snap(m, P)
    mc = MonteCarloTransform(dim=n, number_of_samples=N)
    z, S, C = mc(f, gaussian(m, P))
    unchanged(ctx, 'state', (m, P), (m0, P0))
    X = np.concatenate([x.reshape(-1, n) for x, t, u in f.calls])
    ctx.true('every draw propagated once', X.shape == (N, n), note='%s evaluations' % (X.shape,))
    if X.shape != (N, n):
        return
    Y = np.array([f.at(x) for x in X])
    xb, yb = X.sum(axis=0) / N, Y.sum(axis=0) / N
    ctx.eq('mean', z, yb)
    eS = sum(np.outer(y - yb, y - yb) for y in Y) / (N - 1)
    eC = sum(np.outer(x - xb, y - yb) for x, y in zip(X, Y)) / (N - 1)
    ctx.eq('cov', S, eS)
    ctx.eq('cross cov', C, eC)

    def draw():
        f.calls.clear()
        mc(f, gaussian(m, P))
        return np.concatenate([x.reshape(-1, n) for x, t, u in f.calls])
    law(ctx, 'draws', draw, m0, P0, src, n)


@scenario('C08', [dict(N=1103, d=1), dict(N=257, d=2), dict(N=50021, d=1)], [dict(N=10007, d=1), dict(N=150037, d=1), dict(N=20011, d=2)], budget=120)
def many_samples(ctx, N, d):
    """Long batches, of a few different draws in an irregular order: all of them are propagated and counted."""
    from MomentMatching import MonteCarloTransform
    src = ctx.source()
    pool = [ctx.real('w#%d' % i) for i in range(3)]
    src.reset(lambda i: pool[(i * i // 7 + i) % 3])
    m, P, a = ctx.vec('m', d), ctx.spd('P', d), ctx.real('a')
    seen = []

    def f(x):
        seen.append(np.array(x).reshape(-1, d))
        return a * x + 1
    z, S, C = MonteCarloTransform(dim=d, number_of_samples=N)(f, gaussian(m, P))
    X = np.concatenate(seen)
    ctx.true('every draw propagated once', X.shape == (N, d), note='%s evaluations' % (X.shape,))
    if X.shape != (N, d):
        return
    ctx.true('as many random numbers as components', src.n == N * d, note='%d random numbers' % src.n)
    xb = X.sum(axis=0) / N
    D = X - xb
    V = D.T @ D / (N - 1)
    ctx.eq('mean', z, a * xb + 1)
    ctx.eq('cov', S, a * a * V)
    ctx.eq('cross cov', C, a * V)


@scenario('C08', [dict(n=1), dict(n=2)])
def default_number(ctx, n):
    from MomentMatching import MonteCarloTransform
    ctx.true('ten thousand samples by default', MonteCarloTransform(dim=n).number_of_samples == 10000)
    ctx.true('as requested', MonteCarloTransform(n, 7).number_of_samples == 7)


@scenario('C08', [dict(d=1, N=2, how='state'), dict(d=2, N=2, how='state'), dict(d=1, N=2, how='equal'), dict(d=2, N=2, how='equal'), dict(d=3, N=2, how='state', start=0.9)])
def fresh_draws(ctx, d, N, how):
    """The draws of two calls are independent, for the same distribution, transform and function too."""
    from MomentMatching import MonteCarloTransform
    src = ctx.source()
    f = ctx.fn('f', d, 1)
    m, P = ctx.vec('m', d), ctx.spd('P', d)
    other = (lambda g: g) if how == 'state' else (lambda g: gaussian(1 * m, 1 * P))

    def propagated():
        del f.calls[:]
        t, g = MonteCarloTransform(dim=d, number_of_samples=N), gaussian(1 * m, 1 * P)
        t(f, g)
        t(f, other(g))
        return np.concatenate([x.reshape(-1, d) for x, _, u in f.calls])
    ctx.true('every draw propagated', len(propagated()) == 2 * N)
    law(ctx, 'draws of two calls', propagated, m, P, src, d)

    def sampled():
        g = gaussian(1 * m, 1 * P)
        return np.concatenate([g.sample(N), other(g).sample(N)])
    law(ctx, 'samples of two calls', sampled, m, P, src, d)
