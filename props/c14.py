"""C14: the iterated extended Kalman filter."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, condition, NS
from props.c09 import state
from props.c12 import model
from props.c13 import Linear, series


def point(ctx, fn, x, seen):
    """The argument at which fn was evaluated and which should be x; the caller states the equality."""
    pts = []
    for a, t, u in fn.calls:
        a = np.reshape(a, -1)
        if len(a) == len(x) and not any(ctx.same(a, b) for b in pts):
            pts.append(a)
    for a in pts:
        if ctx.same(a, x):
            return a
    for a in pts:
        if not any(ctx.same(a, b) for b in seen):
            return a
    return x


@scenario('C14', [dict(d=d, k=k, T=T, it=it, style=s) for d, k, T, it, s in (
    (1, 1, 1, 1, 'batch'), (1, 1, 1, 2, 'batch'), (1, 1, 1, 3, 'batch'), (1, 1, 1, 3, 'vec'), (1, 1, 2, 2, 'batch'), (2, 1, 1, 1, 'vec'),
    (2, 1, 1, 2, 'batch'), (1, 2, 1, 2, 'vec'), (1, 2, 1, 2, 'batch'), (2, 2, 1, 1, 'batch'), (2, 2, 1, 1, 'vec'), (2, 1, 1, 2, 'vec'),
    (3, 2, 1, 1, 'vec'))] + [dict(d=1, k=1, T=1, it=6, style='vec', start=0.5), dict(d=1, k=1, T=5, it=2, style='batch', start=0.8), dict(d=3, k=3, T=1, it=3, style='vec', start=0.9),
                             dict(d=4, k=1, T=2, it=2, style='batch', start=0.9)],
    [dict(d=1, k=1, T=1, it=5, style='batch'), dict(d=2, k=2, T=1, it=2, style='vec'), dict(d=2, k=1, T=1, it=3, style='batch'),
     dict(d=1, k=1, T=2, it=3, style='vec'), dict(d=1, k=1, T=3, it=2, style='batch')], budget=80)
def gauss_newton(ctx, d, k, T, it, style):
    from Filters.KalmanFilter import IEKF
    Q, R = ctx.spd('Q', d), ctx.spd('R', k)
    g0, m0, P0, arrs = state(ctx, d, name='i')
    sysm, f, h = model(ctx, d, k, Q, R, init=g0, dt=ctx.real('dt', hint=0.5), style=style)
    t0, u = ctx.real('t0', hint=2), ctx.real('u', hint=0.5)
    ys = series(ctx, T, k)
    inputs = tuple(arrs) + (Q, R, ys)
    copies = snap(*inputs)
    Q, R, ys0 = copies[-3:]
    ek = IEKF(sysm, d)
    res = ek(ys, num_iter=it, t_zero=t0, u=u)
    ctx.true('one state per step', len(res) == T)
    m, P = m0, P0
    for i in range(T):
        t = t0 + i * sysm.dt
        J = f.jac_at(m, t, u)
        m, P = f.at(m, t, u), J @ P @ J.T + Q
        x, seen = m, []
        for j in range(it):
            p = point(ctx, h, x, seen)
            ctx.eq('linearisation point %d.%d' % (i, j), p, x)
            seen.append(p)
            H = h.jac_at(p, t, u)
            z = h.at(p, t, u) + H @ (m - x)
            x, V = condition(ctx, m, P, z, H @ P @ H.T + R, P @ H.T, ys0[i])
        ctx.eq('mean %d' % i, res[i].mean, x)
        ctx.eq('cov %d' % i, res[i].cov, V)
        m, P = res[i].mean, res[i].cov
    unchanged(ctx, 'input', inputs, copies)


@scenario('C14', [dict(d=1, k=1, T=1, it=1, rows=True), dict(d=1, k=1, T=2, it=3, rows=True), dict(d=1, k=1, T=1, it=2, rows=False), dict(d=2, k=1, T=1, it=2, rows=True),
                  dict(d=2, k=1, T=1, it=2, rows=False), dict(d=1, k=2, T=1, it=2, rows=True), dict(d=2, k=1, T=1, it=5, rows=True), dict(d=1, k=1, T=5, it=3, rows=False, start=0.8), dict(d=3, k=2, T=2, it=4, rows=True, start=0.9), dict(d=1, k=1, T=1, it=12, rows=False)],
          [dict(d=2, k=2, T=1, it=2, rows=True), dict(d=1, k=1, T=3, it=2, rows=True)], budget=80)
def affine(ctx, d, k, T, it, rows):
    """Affine models: every number of iterations is the exact filter."""
    from Filters.KalmanFilter import IEKF
    g0, m0, P0, arrs = state(ctx, d, name='i')
    lin = Linear(ctx, d, k, True, init=g0)
    ys = series(ctx, T, k)
    t0 = ctx.real('t0', hint=0.5)
    ek = IEKF(lin.system(rows), d)
    res = ek(ys, num_iter=it, t_zero=t0) if it != 5 else ek(ys, t_zero=t0)
    ctx.true('one state per step', len(res) == T)
    for i in range(T):
        em, eP = lin.posterior(m0, P0, ys, t0, i, i + 1)
        ctx.eq('mean %d' % i, res[i].mean, em)
        ctx.eq('cov %d' % i, res[i].cov, eP)


@scenario('C14', [dict(d=1, k=1), dict(d=2, k=1), dict(d=2, k=2)], budget=60)
def one_iteration(ctx, d, k):
    """One iteration is the extended Kalman filter, also from a supplied prior."""
    from Filters.KalmanFilter import IEKF, KalmanFilterSmoother
    from MomentMatching import TaylorTransform
    Q, R = ctx.spd('Q', d), ctx.spd('R', k)
    g0, m0, P0, _ = state(ctx, d, name='i')
    g1, m1, P1, _ = state(ctx, d, name='p')
    sysm, f, h = model(ctx, d, k, Q, R, init=g0, dt=1)
    ys = series(ctx, 1, k)
    a = IEKF(sysm, d)(ys, num_iter=1, prior_state=g1)
    b = KalmanFilterSmoother(TaylorTransform(dim=d), sysm).kalman_filter(ys, prior_state=g1)
    ctx.eq('mean', a[0].mean, b[0].mean)
    ctx.eq('cov', a[0].cov, b[0].cov)


@scenario('C14', [dict(before=1, d=1, start=.9), dict(before=3, d=1, start=.9), dict(before=7, d=2, start=.95)], [dict(before=2, d=3, start=.95)], budget=60)
def default_count(ctx, before, d):
    """Leaving the number of iterations out means five, whatever number an earlier call was given."""
    from Filters.KalmanFilter import IEKF
    Q, R = ctx.spd('Q', d), ctx.spd('R', 1)
    g0, m0, P0, _ = state(ctx, d, name='i')
    sysm, f, h = model(ctx, d, 1, Q, R, init=g0, dt=ctx.real('dt', hint=0.5), style='vec')
    ys = series(ctx, 1, 1)
    a = IEKF(sysm, d)(ys, num_iter=5)
    ek = IEKF(sysm, d)
    b = ek(ys)
    ek(ys, num_iter=before)
    c = ek(ys)
    e = IEKF(sysm, d)(ys)
    for n, r in (('first call', b), ('after another number', c), ('another filter', e)):
        ctx.eq('%s mean' % n, r[0].mean, a[0].mean)
        ctx.eq('%s cov' % n, r[0].cov, a[0].cov)
