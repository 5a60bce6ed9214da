"""C06: the unscented transform."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, cov, SPARSE, memory


def params(ctx, n, which='sym'):
    if which == 'sym':
        al, be, ka = ctx.real('alpha', hint=1), ctx.real('beta', hint=2), ctx.real('kappa', hint=1)
        ctx.assume((al > 0) | (al < 0), 'alpha nonzero')
        ctx.assume(ka + n > 0, 'kappa above minus the dimension')
        return al, be, ka
    return which


def distinct_rows(ctx, calls, n):
    rows = []
    for x, t, u in calls:
        for r in x.reshape(-1, n):
            if not any(ctx.same(r, q) for q in rows):
                rows.append(r)
    return rows


PAR = ['sym', (1, 2, 1), (1, 0.0, 2), (0.5, 2, 0)]


@scenario('C06', [dict(n=1, k=1, par='sym'), dict(n=1, k=2, par='sym'), dict(n=2, k=1, par='sym'), dict(n=2, k=2, par='sym'),
                  dict(n=2, k=3, par='sym'), dict(n=3, k=1, par='sym'), dict(n=3, k=3, par=(1, 2, 1)), dict(n=4, k=1, par=(1, 0, -1)),
                  dict(n=5, k=1, par=(1, 0, -2)), dict(n=6, k=2, par=(1, 2, 1), start=0.8), dict(n=4, k=6, par='sym', start=0.8)] +
                 [dict(n=3, k=2, par='sym', pat=p) for p in SPARSE],
          [dict(n=3, k=2, par='sym'), dict(n=4, k=2, par='sym'), dict(n=5, k=4, par=(1, 0, -2))], budget=60)
def sigma_point_rule(ctx, n, k, par, pat=None):
    """Against the definition, for an arbitrary function.  Any square root of the covariance is accepted."""
    from MomentMatching import UnscentedTransform
    al, be, ka = params(ctx, n, par)
    f = ctx.fn('f', n, k)
    m, P = ctx.vec('m', n), cov(ctx, 'P', n, pat)
    m0, P0 = snap(m, P)
    ut = UnscentedTransform(dim=n, alpha=al, beta=be, kappa=ka)
    z, S, C = ut(f, gaussian(m, P))
    unchanged(ctx, 'state', (m, P), (m0, P0))
    c2 = al * al * (n + ka)                 # squared scale
    rows = distinct_rows(ctx, f.calls, n)
    centre = [r for r in rows if ctx.same(r, m0)]
    others = [r for r in rows if not ctx.same(r, m0)]
    ctx.true('the mean is a sigma point', len(centre) == 1)
    ctx.true('number of sigma points', len(others) == 2 * n, note='%d points besides the mean' % len(others))
    if len(centre) != 1 or len(others) != 2 * n:
        return
    tot = sum(others[1:], others[0])
    ctx.eq('points are symmetric about the mean', tot, 2 * n * m0)
    sp = 0
    for r in others:
        sp = sp + np.outer(r - m0, r - m0)
    ctx.eq('directions are a square root of the covariance', sp / 2, c2 * P0)
    for r in others:
        ctx.true('mirrored point', any(ctx.same(2 * m0 - r, q) for q in others))
    w = 1 / (2 * c2)
    w0 = 1 - n / c2
    y0 = f.at(m0)
    ys = [f.at(r) for r in others]
    ez = w0 * y0
    for y in ys:
        ez = ez + w * y
    ctx.eq('mean', z, ez)
    wc = w0 + 1 - al * al + be
    eS = wc * np.outer(y0 - ez, y0 - ez)
    eC = wc * np.outer(m0 - m0, y0 - ez)
    for r, y in zip(others, ys):
        eS = eS + w * np.outer(y - ez, y - ez)
        eC = eC + w * np.outer(r - m0, y - ez)
    ctx.eq('cov', S, eS)
    ctx.eq('cross cov', C, eC)


@scenario('C06', [dict(n=n, k=k, par='sym') for n in (1, 2) for k in (1, 2, 3)] + [dict(n=3, k=1, par='sym'), dict(n=3, k=2, par='sym'), dict(n=4, k=2, par='sym')],
          [dict(n=5, k=2, par='sym'), dict(n=4, k=4, par='sym')], budget=60)
def affine(ctx, n, k, par):
    from MomentMatching import UnscentedTransform
    al, be, ka = params(ctx, n, par)
    A, b = ctx.mat('A', k, n), ctx.vec('b', k)
    m, P = ctx.vec('m', n), ctx.spd('P', n)
    ut = UnscentedTransform(dim=n, alpha=al, beta=be, kappa=ka)
    z, S, C = ut(lambda x: x @ A.T + b, gaussian(m, P))
    ctx.eq('mean', z, A @ m + b)
    ctx.eq('cov', S, A @ P @ A.T)
    ctx.eq('cross cov', C, P @ A.T)


@scenario('C06', [dict(n=1), dict(n=2), dict(n=3)], [dict(n=4)], budget=60)
def quadratic_mean(ctx, n):
    from MomentMatching import UnscentedTransform
    al, be, ka = params(ctx, n)
    Q, b = ctx.sym('Q', n), ctx.vec('b', n)
    c = ctx.real('c')
    m, P = ctx.vec('m', n), ctx.spd('P', n)
    ut = UnscentedTransform(dim=n, alpha=al, beta=be, kappa=ka)
    z, S, C = ut(lambda x: ((x @ Q) * x).sum(axis=1, keepdims=True) + (x @ b)[:, None] + c, gaussian(m, P))
    ctx.eq('mean', z, np.array([m @ Q @ m + np.trace(Q @ P) + b @ m + c]))


@scenario('C06', [dict(n=1), dict(n=2)])
def reuse(ctx, n):
    """A transform has no memory: the second of two uses gives what a fresh one gives."""
    from MomentMatching import UnscentedTransform
    f, g = ctx.fn('f', n, 1), ctx.fn('g', n, 2)
    m, P, m2, P2 = ctx.vec('m', n), ctx.spd('P', n), ctx.vec('o', n), ctx.spd('O', n)
    a, b = UnscentedTransform(dim=n), UnscentedTransform(dim=n)
    z1 = a(f, gaussian(m, P))
    c1 = [x.copy() for x in z1]
    got = a(g, gaussian(m2, P2))
    exp = b(g, gaussian(m2, P2))
    for l, x, y in zip(('mean', 'cov', 'cross cov'), got, exp):
        ctx.eq(l, x, y)
    for l, x, y in zip(('mean', 'cov', 'cross cov'), z1, c1):
        ctx.eq('first ' + l, x, y)


@scenario('C06', [dict(n=1), dict(n=2)])
def defaults(ctx, n):
    """alpha=1, beta=2, kappa=1 unless given."""
    from MomentMatching import UnscentedTransform
    f = ctx.fn('f', n, 2)
    m, P = ctx.vec('m', n), ctx.spd('P', n)
    a = UnscentedTransform(dim=n)(f, gaussian(m, P))
    b = UnscentedTransform(n, 1, 2, 1)(f, gaussian(m, P))
    for l, x, y in zip(('mean', 'cov', 'cross cov'), a, b):
        ctx.eq(l, x, y)


@scenario('C06', [dict(n=1, k=1), dict(n=2, k=1), dict(n=1, k=2), dict(n=2, k=2), dict(n=4, k=3, start=0.9)], [dict(n=3, k=2)])
def one_argument_changed(ctx, n, k):
    from MomentMatching import UnscentedTransform
    memory(ctx, UnscentedTransform(dim=n), n, k)
