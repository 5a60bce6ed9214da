"""Oracles and small helpers shared by the scenarios.  Works on symbolic and on float arrays alike."""
import numpy as np


def gaussian(mean, cov):
    from StateModel import Gaussian
    return Gaussian(mean, cov)


def natural(precision, shift):
    from StateModel import Gaussian
    return Gaussian.from_natural(precision, shift)


def snap(*arrays):
    """Copies for a later comparison."""
    return [np.array(a, copy=True) for a in arrays]


def unchanged(ctx, label, arrays, copies):
    for i, (a, c) in enumerate(zip(arrays, copies)):
        ctx.eq('%s unchanged (%d)' % (label, i), a, c, tol=0)


def eye(ctx, n):
    return ctx.array(np.eye(n))


def condition(ctx, m, P, z, S, C, y):
    """Gaussian conditioning: joint N([m; z], [[P, C], [C', S]]) on the observation y."""
    K = C @ ctx.inv(S)
    return m + K @ (y - z), P - K @ C.T


def rts(ctx, m, P, z, V, C, mu, Sigma):
    J = C @ ctx.inv(V)
    return m + J @ (mu - z), P + J @ (Sigma - V) @ J.T


def mul_nat(ctx, m1, P1, m2, P2):
    """Moments of the product of two Gaussians."""
    L1, L2 = ctx.inv(P1), ctx.inv(P2)
    P = ctx.inv(L1 + L2)
    return P @ (L1 @ m1 + L2 @ m2), P


PATTERNS = ('diagonal', 'scaled', 'chain', 'arrow', 'pairs')


def patterned(ctx, name, d, pattern):
    """A positive-definite matrix with a sparsity pattern: diagonal, a multiple of the identity, tridiagonal, arrow, or
    components coupled in pairs (0 with 2, 1 with 3, as in the tracking models)."""
    M = np.zeros((d, d)) * ctx.const(0)
    if pattern == 'scaled':
        a = ctx.real(name, '+', hint=2.0)
        for i in range(d):
            M[i, i] = a
        return M
    for i in range(d):
        M[i, i] = ctx.real('%s_%d' % (name, i), '+', hint=1.0 + 0.5 * i)
    pairs = {'diagonal': (), 'chain': [(i, i + 1) for i in range(d - 1)], 'arrow': [(0, i) for i in range(1, d)],
             'pairs': [(i, i + 2) for i in range(d - 2) if i % 4 < 2], 'dense': [(i, j) for i in range(d) for j in range(i + 1, d)]}[pattern]
    for i, j in pairs:
        M[i, j] = M[j, i] = ctx.real('%s_%d%d' % (name, i, j), hint=0.25)
    if pairs:
        ctx.assume_pd(M)
    return M


SPARSE = ('diagonal', 'chain', 'pairs', 'arrow', 'identity')


def cov(ctx, name, d, pattern=None):
    """A positive-definite matrix by its Cholesky factor: arbitrary, or with a sparsity pattern (diagonal, tridiagonal, components
    coupled in pairs, the last component coupled with all, the identity)."""
    if pattern is None or pattern == 'dense':
        return ctx.spd(name, d)
    if pattern == 'identity':
        return ctx.array(np.eye(d))
    on = {'diagonal': lambda i, j: False, 'chain': lambda i, j: j == i - 1, 'pairs': lambda i, j: j == i - 2,
          'arrow': lambda i, j: i == d - 1}[pattern]
    L = ctx.array(np.zeros((d, d)))
    for i in range(d):
        L[i, i] = ctx.real('%s_l%d%d' % (name, i + 1, i + 1), '+')
        for j in range(i):
            if on(i, j):
                L[i, j] = ctx.real('%s_l%d%d' % (name, i + 1, j + 1))
    return L @ L.T


class NS:
    """A plain object with attributes."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


MOVES = ('shift', 'still', 'swap', 'part')


def simple_map(ctx, d, move):
    """(function, A, b) of simple affine maps: a shift, the identity, reversed components, the first component only."""
    A = np.eye(d)
    if move == 'swap':
        A = A[::-1]
    if move == 'part':
        A = A[:1]
    b = ctx.vec('b', len(A)) if move != 'still' else ctx.array(np.zeros(len(A)))
    f = {'swap': lambda x: x[..., ::-1] + b, 'shift': lambda x: x + b, 'still': lambda x: 1 * x, 'part': lambda x: x[..., :1] + b}[move]
    return f, ctx.array(A), b


def library_map(d, k):
    from MomentMatching import UnscentedTransform, TaylorTransform
    return UnscentedTransform(dim=d) if k == 'u' else TaylorTransform(dim=d)


def memory(ctx, t, d, k):
    """One transform used again and again, a single argument changed from call to call (affine functions, so every answer is known)."""
    import autograd.numpy as anp
    A, B, a, b = ctx.mat('A', k, d), ctx.mat('B', k, d), ctx.vec('a', k), ctx.vec('b', k)
    maps = [(lambda x: anp.dot(anp.atleast_2d(x), A.T) + a, A, a), (lambda x: anp.dot(anp.atleast_2d(x), B.T) + b, B, b)]
    ms, Ps = [ctx.vec(n, d) for n in 'mo'], [ctx.spd(n, d) for n in 'PO']
    state = gaussian(1 * ms[0], 1 * Ps[0])
    steps = [(0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (1, 1, 0), (0, 1, 0), (0, None, None), (1, None, None), (0, None, None), (0, 0, 1)]
    for i, (f, m, P) in enumerate(steps):
        g = state if m is None else gaussian(1 * ms[m], 1 * Ps[P])
        fn, M, c = maps[f]
        em, eP = ms[m or 0], Ps[P or 0]
        z, S, C = t(fn, g)
        for label, got, want in (('mean', np.ravel(z), M @ em + c), ('cov', S, M @ eP @ M.T), ('cross cov', C, eP @ M.T)):
            ctx.eq('%s, use %d' % (label, i), got, want)
