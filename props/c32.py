"""C32: equality of Gaussians compares the distributions."""
from props import scenario
from props.common import np, gaussian, natural


def build(ctx, form, m, P):
    """The same distribution from either set of parameters."""
    if form == 'm':
        return gaussian(m.copy(), P.copy())
    L = ctx.inv(P)
    ctx.assume(np.trace(L) >= 1e-10, 'precisions are not in the vague range')
    return natural(L, L @ m)


@scenario('C32', [dict(d=d, a=a, b=b) for d in (1, 2) for a in 'mn' for b in 'mn'] + [dict(d=3, a='m', b='m')] + [dict(d=5, a='m', b='n', start=0.9), dict(d=4, a='n', b='m', start=0.9)], [dict(d=3, a='m', b='n')])
def same(ctx, d, a, b):
    m, P = ctx.vec('m', d), ctx.spd('P', d)
    g, h = build(ctx, a, m, P), build(ctx, b, m, P)
    ctx.assume(np.trace(ctx.inv(P)) >= 1e-10, 'precisions are not in the vague range')
    ctx.true('equal', bool(g == h) is True)
    ctx.true('equal to itself', bool(g == g) is True)
    ctx.true('equal to a copy', bool(g == g.copy()) is True)
    ctx.true('not unequal', bool(g != h) is False)
    one = g * type(g).as_factor(d)
    ctx.true('equal to its product with the unit factor', bool(one == h) is True)
    ctx.eq('mean afterwards', g.mean, m)
    ctx.eq('covariance afterwards', h.cov, P)


def size(x):
    return abs(x)


@scenario('C32', [dict(d=d, where=w) for d, w in ((1, 'mean'), (1, 'cov'), (2, 'mean0'), (2, 'mean1'), (2, 'cov0'), (2, 'cov1'), (2, 'off'))] + [dict(d=d, where=w, start=0.9) for d, w in ((4, 'mean3'), (5, 'cov4'), (4, 'off'))] +
          [dict(d=d, where=w, a=a, b=b) for d, w in ((1, 'mean'), (1, 'cov')) for a, b in ('nn', 'mn', 'nm')] + [dict(d=2, where=w, a='n', b='n', start=0.8) for w in ('mean1', 'cov0', 'off')] +
          [dict(d=d, where=w, start=0.95) for d, w in ((3, 'off0_2'), (5, 'off0_4'), (6, 'off1_4'), (8, 'off3_4'), (10, 'off0_5'), (10, 'off2_9'), (12, 'off0_11'), (10, 'cov9'), (10, 'mean8'))],
          [dict(d=3, where='mean2'), dict(d=3, where='off')])
def different(ctx, d, where, a='m', b='m'):
    """One parameter differs by more than one part in a thousand of its size and of one."""
    m, P = ctx.vec('m', d), ctx.spd('P', d)
    if d > 4:
        P = P + d * ctx.array(np.eye(d))     # room for the difference: a random large matrix is nearly singular
    m2, P2 = 1.0 * m, 1.0 * P
    e = ctx.real('e', hint=0.5 if not where.startswith('off') else 0.0625)
    if where.startswith('mean'):
        i = int(where[4:] or 0)
        m2[i] = m2[i] + e
        v, w = m[i], m2[i]
    elif where.startswith('cov'):
        i = int(where[3:] or 0)
        P2[i, i] = P2[i, i] + e
        v, w = P[i, i], P2[i, i]
    else:
        i, j = [int(x) for x in (where[3:] or '0_1').split('_')]
        P2[i, j] = P2[j, i] = P2[i, j] + e
        v, w = P[i, j], P2[i, j]
    ctx.assume_pd(P2, 'both covariances are positive definite')
    lim = 0.0011 * (1 + size(v) + size(w))
    ctx.assume((e > lim) | (-e > lim), 'the difference is above the tolerance')
    g, h = build(ctx, a, m, P), build(ctx, b, m2, P2)
    ctx.true('not equal', bool(g == h) is False)
    ctx.true('not equal the other way round', bool(h == g) is False)
    ctx.true('unequal', bool(g != h) is True)


@scenario('C32', [dict(d=1), dict(d=2), dict(d=4, start=0.9)], [dict(d=3)])
def close(ctx, d):
    """All parameters agree to within a tenth of the tolerance."""
    m, P = ctx.vec('m', d), ctx.spd('P', d)
    tiny = lambda name: ctx.real(name, lo=-1, hi=1) * 1e-4          # the parameters agree to within 1e-4
    dm, dP = np.array([tiny('dm%d' % i) for i in range(d)]), P * 0.0
    for i in range(d):
        for j in range(i, d):
            dP[i, j] = dP[j, i] = tiny('dP%d%d' % (i, j))
    g, h = gaussian(m, P), gaussian(m + dm, P + dP)
    ctx.true('equal', bool(g == h) is True)
    ctx.true('equal the other way round', bool(h == g) is True)


@scenario('C32', [dict(d=d, k=k, a=a, b=b) for d, k in ((1, 2), (1, 3), (2, 3), (2, 4)) for a, b in ('mm', 'nn', 'mn', 'nm') if max(d, k) < 3 or a + b == 'mm'] + [dict(d=1, k=5, a='m', b='m', start=0.8), dict(d=5, k=10, a='m', b='m', start=0.95)])
def other_dimension(ctx, d, k, a, b):
    """Gaussians of different dimension are different, also when the larger one repeats the smaller one (nearly singular)."""
    m, P = ctx.vec('m', d), ctx.spd('P', d)
    r = [i % d for i in range(k)]
    M, C = np.array([m[i] for i in r]), np.array([[P[i, j] for j in r] for i in r])
    e = ctx.real('e', '+', hint=0.0009)
    C = C + e * ctx.array(np.eye(k))
    g, h = build(ctx, a, m, P), build(ctx, b, M, C)
    ctx.true('not equal', bool(g == h) is False)
    ctx.true('not equal the other way round', bool(h == g) is False)
    ctx.true('unequal', bool(g != h) is True)
