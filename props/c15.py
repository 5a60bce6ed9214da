"""C15: the iterated extended Kalman smoother."""
from props import scenario
from props.common import np, snap, unchanged, condition, rts, NS
from props.c09 import state
from props.c12 import model
from props.c13 import Linear, series


def smoother(ctx, m0, P0, ys, Q, R, trans, meas, given=None):
    """Filter and smoother recursions.  trans(i, m), meas(i, m): value and derivative of the i-th model at m."""
    pred, fil = [], []
    m, P = m0, P0
    for i, y in enumerate(ys):
        v, J = trans(i, m)
        C = P @ J.T
        m1, P1 = v, J @ C + Q
        pred.append((m1, P1, C))
        z, H = meas(i, m1)
        D = P1 @ H.T
        m, P = condition(ctx, m1, P1, z, H @ D + R, D, y)
        if given is not None:
            m, P = given(i, m, P)
        fil.append((m, P))
    out = [fil[-1]]
    for i in range(len(ys) - 2, -1, -1):
        z, V, C = pred[i + 1]
        out.append(rts(ctx, fil[i][0], fil[i][1], z, V, C, out[-1][0], out[-1][1]))
    return out[::-1]


SH = [dict(d=1, k=1, T=1, it=1, style='batch'), dict(d=1, k=1, T=2, it=1, style='batch'), dict(d=1, k=1, T=2, it=2, style='batch'),
      dict(d=1, k=1, T=2, it=3, style='vec'), dict(d=1, k=1, T=3, it=2, style='vec'), dict(d=2, k=1, T=1, it=2, style='vec'),
      dict(d=2, k=1, T=2, it=1, style='vec', start=0.5), dict(d=2, k=1, T=2, it=2, style='vec', start=0.8), dict(d=1, k=2, T=2, it=2, style='vec', start=0.5),
      dict(d=1, k=1, T=5, it=2, style='vec', start=0.8), dict(d=1, k=1, T=2, it=5, style='batch', start=0.8), dict(d=3, k=2, T=2, it=2, style='vec', start=0.9), dict(d=2, k=2, T=3, it=3, style='batch', start=0.9)]


@scenario('C15', SH, [dict(d=1, k=1, T=3, it=3, style='batch'), dict(d=2, k=2, T=2, it=2, style='vec'), dict(d=1, k=1, T=4, it=2, style='vec')], budget=80)
def passes(ctx, d, k, T, it, style):
    from Filters.KalmanFilter import IEKS
    Q, R = ctx.spd('Q', d), ctx.spd('R', k)
    g0, m0, P0, arrs = state(ctx, d, name='i')
    dt = ctx.real('dt', hint=0.5)
    sysm, f, h = model(ctx, d, k, Q, R, init=g0, dt=dt, style=style)
    ys = series(ctx, T, k)
    inputs = tuple(arrs) + (Q, R, ys)
    copies = snap(*inputs)
    Q, R, ys0 = copies[-3:]
    res = IEKS(sysm, d)(ys, num_iter=it)
    ctx.true('one state per step', len(res) == T)
    unchanged(ctx, 'input', inputs, copies)
    if it == 1:
        exp = smoother(ctx, m0, P0, ys0, Q, R, lambda i, m: (f.at(m, i * dt), f.jac_at(m, i * dt)),
                       lambda i, m: (h.at(m, i * dt), h.jac_at(m, i * dt)))
    else:
        path = [s.mean for s in IEKS(sysm, d)(ys, num_iter=it - 1)]
        prev = [m0] + path[:-1]

        def lin(fn, p, t, m):
            J = fn.jac_at(p, t)
            return fn.at(p, t) + J @ (m - p), J
        exp = smoother(ctx, m0, P0, ys0, Q, R, lambda i, m: lin(f, prev[i], i * dt, m), lambda i, m: lin(h, path[i], i * dt, m))
    for i in range(T):
        ctx.eq('mean %d' % i, res[i].mean, exp[i][0])
        ctx.eq('cov %d' % i, res[i].cov, exp[i][1])


@scenario('C15', [dict(d=1, k=1, T=2, it=1), dict(d=1, k=1, T=2, it=2), dict(d=2, k=1, T=1, it=2), dict(d=1, k=1, T=1, it=4), dict(d=1, k=1, T=2, it=5, start=0.9), dict(d=1, k=1, T=3, it=12, start=0.95)], [dict(d=1, k=1, T=3, it=3), dict(d=2, k=1, T=2, it=2)], budget=80)
def repeatable(ctx, d, k, T, it):
    from Filters.KalmanFilter import IEKS
    Q, R = ctx.spd('Q', d), ctx.spd('R', k)
    g0, m0, P0, arrs = state(ctx, d, name='i')
    sysm, f, h = model(ctx, d, k, Q, R, init=g0, dt=ctx.real('dt', hint=0.5), style='vec')
    ys = series(ctx, T, k)
    other = np.array([ctx.vec('o%d' % i, k) for i in range(T)])
    s = IEKS(sysm, d)
    a = [(g.mean.copy(), g.cov.copy()) for g in s(ys, num_iter=it)]
    b = s(ys, num_iter=it)
    s(other[:1], num_iter=2)
    c = s(ys, num_iter=it)
    s(other, num_iter=1)
    e = s(ys, num_iter=it)
    for i in range(T):
        for n, r in (('again', b), ('after other data', c), ('after as many other data', e)):
            ctx.eq('%s mean %d' % (n, i), r[i].mean, a[i][0])
            ctx.eq('%s cov %d' % (n, i), r[i].cov, a[i][1])


@scenario('C15', [dict(d=1, k=1, T=1, it=2, rows=False), dict(d=1, k=1, T=2, it=2, rows=False), dict(d=1, k=1, T=2, it=3, rows=True), dict(d=1, k=1, T=3, it=2, rows=False),
                  dict(d=2, k=1, T=2, it=2, rows=False, start=0.5), dict(d=1, k=2, T=2, it=2, rows=False, start=0.5), dict(d=1, k=1, T=6, it=2, rows=False, start=0.8), dict(d=3, k=2, T=3, it=3, rows=True, start=0.95)],
          [dict(d=1, k=1, T=3, it=4, rows=False)], budget=80)
def affine(ctx, d, k, T, it, rows):
    from Filters.KalmanFilter import IEKS
    g0, m0, P0, arrs = state(ctx, d, name='i')
    lin = Linear(ctx, d, k, True, init=g0)
    ys = series(ctx, T, k)
    res = IEKS(lin.system(rows), d)(ys, num_iter=it)
    ctx.true('one state per step', len(res) == T)
    for i in range(T):
        em, eP = lin.posterior(m0, P0, ys, 0, i, T)
        ctx.eq('mean %d' % i, res[i].mean, em)
        ctx.eq('cov %d' % i, res[i].cov, eP)


@scenario('C15', [dict(before=1, d=1, start=.9), dict(before=7, d=1, start=.9), dict(before=3, d=2, start=.97)], [dict(before=2, d=3, start=.97)], budget=60)
def default_count(ctx, before, d):
    """Leaving the number of passes out means five, whatever number an earlier call was given."""
    from Filters.KalmanFilter import IEKS
    Q, R = ctx.spd('Q', d), ctx.spd('R', 1)
    g0, m0, P0, _ = state(ctx, d, name='i')
    sysm, f, h = model(ctx, d, 1, Q, R, init=g0, dt=ctx.real('dt', hint=0.5), style='vec')
    ys = series(ctx, 2, 1)
    a = [(g.mean.copy(), g.cov.copy()) for g in IEKS(sysm, d)(ys, num_iter=5)]
    s = IEKS(sysm, d)
    b = [(g.mean.copy(), g.cov.copy()) for g in s(ys)]
    s(ys, num_iter=before)
    c = [(g.mean.copy(), g.cov.copy()) for g in s(ys)]
    e = IEKS(sysm, d)(ys)
    for i in range(2):
        for n, r in (('first call', b), ('after another number', c)):
            ctx.eq('%s mean %d' % (n, i), r[i][0], a[i][0])
            ctx.eq('%s cov %d' % (n, i), r[i][1], a[i][1])
        ctx.eq('another smoother: mean %d' % i, e[i].mean, a[i][0])
        ctx.eq('another smoother: cov %d' % i, e[i].cov, a[i][1])
