"""C12: Kalman predict, correct and smooth."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, condition, rts, NS, cov, SPARSE, MOVES, simple_map, library_map
from props.c09 import state


def model(ctx, d, k, Q, R, f=None, h=None, dt=1, init=None, style='batch'):
    """A system with arbitrary transition and measurement functions of state, time and control."""
    f = f or ctx.fn('f', d, d, style)
    h = h or ctx.fn('h', d, k, style)
    return NS(transition=lambda x, t=None, u=None: f(x, t, u), measurement=lambda x, t=None, u=None: h(x, t, u),
              system_noise=NS(cov=Q), transition_noise=NS(cov=Q), measurement_noise=NS(cov=R), init_state=init, dt=dt,
              system_dim=d, measurement_dim=k), f, h


def filt(ctx, d, k, two, spd=False, pat=None, noise=None):
    from Filters.KalmanFilter import KalmanFilterSmoother
    T = ctx.transform('T', d, d, spd=spd)
    M = ctx.transform('M', d, k, spd=spd) if two else T
    Q, R = (cov(ctx, 'Q', d, pat), cov(ctx, 'R', k, pat)) if pat else noise or (ctx.sym('Q', d), ctx.sym('R', k))
    g0, m0, P0, _ = state(ctx, d, name='i')
    sysm, f, h = model(ctx, d, k, Q, R, init=g0)
    kf = KalmanFilterSmoother(T, sysm, meas_moment_matching=M) if two else KalmanFilterSmoother(T, sysm)
    return kf, T, M, f, h, Q, R


def tu(ctx):
    return ctx.real('t', hint=1.5), ctx.real('u', hint=0.5)


def seen(ctx, label, fn, t, u):
    ctx.true(label + ' is evaluated', len(fn.calls) > 0)
    for x, tt, uu in fn.calls:
        if tt is None or uu is None:
            ctx.fail(label + ' gets time and control', 'time %r, control %r' % (tt, uu))
            return
        ctx.eq(label + ' time', tt, t)
        ctx.eq(label + ' control', uu, u)


SHAPES = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]


@scenario('C12', [dict(d=d, k=k, two=True) for d, k in SHAPES] + [dict(d=1, k=1, two=False), dict(d=2, k=2, two=False), dict(d=6, k=2, two=True, start=0.5)], [dict(d=4, k=1, two=True)])
def predict(ctx, d, k, two):
    kf, T, M, f, h, Q, R = filt(ctx, d, k, two)
    g, m, P, arrs = state(ctx, d)
    t, u = tu(ctx)
    inputs = tuple(arrs) + (Q, R)
    copies = snap(*inputs)
    out = kf.predict(g, t=t, u=u)
    row = T.calls[0]['row']
    ctx.eq('mean', out.mean, row['z'])
    ctx.eq('cov', out.cov, row['S'] + copies[2])
    for c in T.calls:
        ctx.eq('map sees the state', np.concatenate([c['m'], c['P'].ravel()]), np.concatenate([m, P.ravel()]))
    seen(ctx, 'transition', f, t, u)
    ctx.true('measurement is not involved', len(h.calls) == 0)
    if two:
        ctx.true('measurement transform is not used', len(M.calls) == 0)
    unchanged(ctx, 'input', inputs, copies)


@scenario('C12', [dict(d=d, k=k, two=True) for d, k in SHAPES] + [dict(d=1, k=1, two=False), dict(d=2, k=2, two=False), dict(d=5, k=3, two=True, start=0.9)] + [dict(d=3, k=3, two=True, pat=p) for p in SPARSE],
          [dict(d=4, k=2, two=True), dict(d=3, k=3, two=True)], budget=60)
def correct(ctx, d, k, two, pat=None):
    kf, T, M, f, h, Q, R = filt(ctx, d, k, two, pat=pat)
    g, m, P, arrs = state(ctx, d, pat=pat)
    y = ctx.vec('y', k)
    t, u = tu(ctx)
    inputs = tuple(arrs) + (Q, R, y)
    copies = snap(*inputs)
    out = kf.correct(g, y, t=t, u=u)
    row = M.calls[0]['row']
    em, eP = condition(ctx, m, P, row['z'], row['S'] + copies[3], row['C'], copies[4])
    ctx.eq('mean', out.mean, em)
    ctx.eq('cov', out.cov, eP)
    ctx.true('dimension', out.dim == d)
    for c in M.calls:
        ctx.eq('map sees the state', np.concatenate([c['m'], c['P'].ravel()]), np.concatenate([m, P.ravel()]))
    seen(ctx, 'measurement', h, t, u)
    ctx.true('transition is not involved', len(f.calls) == 0)
    if two:
        ctx.true('transition transform is not used', len(T.calls) == 0)
    unchanged(ctx, 'input', inputs, copies)
    if k == 1:
        o2 = kf.correct(g, y[0], t=t, u=u)
        ctx.eq('scalar observation', o2.mean, em)


@scenario('C12', [dict(d=1, two=True), dict(d=2, two=True), dict(d=2, two=False), dict(d=5, two=True, start=0.9)] + [dict(d=3, two=True, pat=p) for p in SPARSE], [dict(d=3, two=True)], budget=60)
def smooth(ctx, d, two, pat=None):
    kf, T, M, f, h, Q, R = filt(ctx, d, d, two, pat=pat)
    g, m, P, arrs = state(ctx, d, pat=pat)
    n, nm, nP, narrs = state(ctx, d, name='n', pat=pat)
    t, u = tu(ctx)
    inputs = tuple(arrs) + tuple(narrs) + (Q, R)
    copies = snap(*inputs)
    out = kf.smooth(g, n, t=t, u=u)
    row = T.calls[0]['row']
    em, eP = rts(ctx, m, P, row['z'], row['S'] + copies[4], row['C'], nm, nP)
    ctx.eq('mean', out.mean, em)
    ctx.eq('cov', out.cov, eP)
    for c in T.calls:
        ctx.eq('map sees the state', np.concatenate([c['m'], c['P'].ravel()]), np.concatenate([m, P.ravel()]))
    seen(ctx, 'transition', f, t, u)
    ctx.true('measurement is not involved', len(h.calls) == 0)
    if two:
        ctx.true('measurement transform is not used', len(M.calls) == 0)
    unchanged(ctx, 'input', inputs, copies)


@scenario('C12', [dict(d=1, k=1), dict(d=2, k=1), dict(d=2, k=2)], budget=60)
def same_as_estimator(ctx, d, k):
    from MomentMatching.Estimator import Estimator
    from functools import partial
    from Filters.KalmanFilter import KalmanFilterSmoother
    T, M = ctx.transform('T', d, d, spd=True), ctx.transform('M', d, k, spd=True)
    Qp, Rp = ctx.spd('Qp', d), ctx.spd('Rp', k)
    sysm, f, h = model(ctx, d, k, Qp.copy(), Rp.copy(), init=state(ctx, d, name='i')[0])
    kf = KalmanFilterSmoother(T, sysm, meas_moment_matching=M)
    est = Estimator(T, M, Qp.copy(), Rp.copy(), power=1)
    g, m, P, arrs = state(ctx, d)
    n, nm, nP, narrs = state(ctx, d, name='n')
    y = ctx.vec('y', k)
    t, u = tu(ctx)
    F, H = partial(sysm.transition, t=t, u=u), partial(sysm.measurement, t=t, u=u)
    a, b = kf.predict(g, t=t, u=u), est.proj_trans(F, g)
    ctx.eq('predict mean', a.mean, b.mean)
    ctx.eq('predict cov', a.cov, b.cov)
    a, b = kf.correct(g, y, t=t, u=u), est.proj_meas(H, g, y)
    ctx.eq('correct mean', a.mean, b.mean)
    ctx.eq('correct cov', a.cov, b.cov)
    a, b = kf.smooth(g, n, t=t, u=u), est.proj_back(F, g, n, next_state=n)
    ctx.eq('smooth mean', a.mean, b.mean)
    ctx.eq('smooth cov', a.cov, b.cov)


def singular(ctx, name, n, kind):
    """Noise that leaves directions out: none at all, some components only, one direction."""
    Z = np.array([[ctx.const(0)] * n for _ in range(n)])
    if kind == 'rows':
        for i in range(0, n - 1, 2):
            Z[i, i] = ctx.real('%s%d' % (name, i), '+', hint=1 + i)
    if kind == 'direction':
        v = ctx.vec(name, n)
        Z = np.outer(v, v)
    return ctx.array(Z) if kind == 'none' else Z


@scenario('C12', [dict(d=d, k=k, kind=q) for d, k, q in ((1, 1, 'none'), (2, 1, 'none'), (2, 2, 'rows'), (2, 1, 'direction'))] +
          [dict(d=3, k=2, kind=q, start=0.8) for q in ('none', 'rows', 'direction')] + [dict(d=5, k=2, kind='rows', start=0.9), dict(d=8, k=4, kind='none', start=0.98)], budget=60)
def singular_noise(ctx, d, k, kind):
    """Noise covariances that are singular or zero are used as they are."""
    noise = singular(ctx, 'q', d, kind), singular(ctx, 'r', k, kind)
    kf, T, M, f, h, Q, R = filt(ctx, d, k, True, spd=True, noise=noise)
    g, m, P, arrs = state(ctx, d)
    n, nm, nP, narrs = state(ctx, d, name='n')
    y = ctx.vec('y', k)
    t, u = tu(ctx)
    inputs = tuple(arrs) + tuple(narrs) + (Q, R, y)
    copies = snap(*inputs)
    for again in (1, 2):
        out, row = kf.predict(g, t=t, u=u), T.calls[0]['row']
        ctx.eq('predicted mean, call %d' % again, out.mean, row['z'])
        ctx.eq('predicted cov, call %d' % again, out.cov, row['S'] + copies[-3])
        em, eP = rts(ctx, m, P, row['z'], row['S'] + copies[-3], row['C'], nm, nP)
        out, row = kf.smooth(g, n, t=t, u=u), M.calls[0]['row'] if M.calls else None
        ctx.eq('smoothed mean, call %d' % again, out.mean, em)
        ctx.eq('smoothed cov, call %d' % again, out.cov, eP)
        out = kf.correct(g, y, t=t, u=u)
        row = M.calls[0]['row']
        em, eP = condition(ctx, m, P, row['z'], row['S'] + copies[-2], row['C'], copies[-1])
        ctx.eq('corrected mean, call %d' % again, out.mean, em)
        ctx.eq('corrected cov, call %d' % again, out.cov, eP)
    unchanged(ctx, 'input', inputs, copies)


@scenario('C12', [dict(d=d, k=k, move=mv) for d in (1, 2) for k in 'ut' for mv in MOVES] + [dict(d=4, k='t', move='still', start=0.8)], budget=60)
def real_maps(ctx, d, k, move):
    """With the library's own transforms and models that keep, shift or reverse the state: nothing given is changed."""
    from Filters.KalmanFilter import KalmanFilterSmoother
    f, A, b = simple_map(ctx, d, 'still' if move == 'part' else move)
    h, H, c = simple_map(ctx, d, move)
    n = len(H)
    Q, R = ctx.spd('Q', d), ctx.spd('R', n)
    sysm = NS(transition=lambda x, t=None, u=None: f(x), measurement=lambda x, t=None, u=None: h(x), system_noise=NS(cov=Q), transition_noise=NS(cov=Q),
              measurement_noise=NS(cov=R), init_state=None, dt=1, system_dim=d, measurement_dim=n)
    kf = KalmanFilterSmoother(library_map(d, k), sysm)
    g, m, P, arrs = state(ctx, d)
    nx, nm, nP, narrs = state(ctx, d, name='n')
    y = ctx.vec('y', n)
    inputs = tuple(arrs) + tuple(narrs) + (Q, R, y)
    copies = snap(*inputs)
    for again in (1, 2):
        a = kf.predict(g, t=0.0)
        ctx.eq('predicted mean, call %d' % again, a.mean, A @ m + b)
        ctx.eq('predicted cov, call %d' % again, a.cov, A @ P @ A.T + copies[-3])
        a = kf.correct(g, y, t=0.0)
        em, eP = condition(ctx, m, P, H @ m + c, H @ P @ H.T + copies[-2], P @ H.T, copies[-1])
        ctx.eq('corrected mean, call %d' % again, a.mean, em)
        ctx.eq('corrected cov, call %d' % again, a.cov, eP)
        a = kf.smooth(g, nx, t=0.0)
        em, eP = rts(ctx, m, P, A @ m + b, A @ P @ A.T + copies[-3], P @ A.T, nm, nP)
        ctx.eq('smoothed mean, call %d' % again, a.mean, em)
        ctx.eq('smoothed cov, call %d' % again, a.cov, eP)
    unchanged(ctx, 'input', inputs, copies)


@scenario('C12', [dict(d=1, k=1), dict(d=2, k=1, start=0.5)], budget=60)
def one_argument_changed(ctx, d, k):
    """Calls that differ in a single argument (time, control, state, observation, next state): no call depends on an earlier one."""
    kf, T, M, f, h, Q, R = filt(ctx, d, k, True, spd=True)
    Q, R = 1 * Q, 1 * R
    ts, us, ys = [ctx.real('t%d' % i) for i in (0, 1)], [ctx.real('u%d' % i) for i in (0, 1)], [ctx.vec('y%d' % i, k) for i in (0, 1)]
    gs, ns = [state(ctx, d, name='g%d' % i)[:3] for i in (0, 1)], [state(ctx, d, name='n%d' % i)[:3] for i in (0, 1)]

    def ask(tm, fn, call):
        del tm.calls[:], fn.calls[:]
        out = call()
        return out, (tm.calls[0]['row'] if tm.calls else None)
    for j, (s, t, u, o) in enumerate(((0, 0, 0, 0), (0, 0, 1, 0), (0, 1, 1, 0), (1, 1, 1, 0), (1, 1, 1, 1), (0, 1, 1, 1), (0, 0, 0, 0))):
        (g, m, P), (n, nm, nP), y = gs[s], ns[o], ys[o]
        for label, tm, fn, call in (('predict', T, f, lambda: kf.predict(g, t=ts[t], u=us[u])), ('correct', M, h, lambda: kf.correct(g, y, t=ts[t], u=us[u])),
                                    ('smooth', T, f, lambda: kf.smooth(g, n, t=ts[t], u=us[u]))):
            out, row = ask(tm, fn, call)
            label = '%s %d' % (label, j)
            if row is None:
                ctx.fail(label + ' uses the rule')
                return
            seen(ctx, label, fn, ts[t], us[u])
            if label[0] == 'p':
                em, eP = row['z'], row['S'] + Q
            elif label[0] == 'c':
                em, eP = condition(ctx, m, P, row['z'], row['S'] + R, row['C'], y)
            else:
                em, eP = rts(ctx, m, P, row['z'], row['S'] + Q, row['C'], nm, nP)
            ctx.eq(label + ' mean', out.mean, em)
            ctx.eq(label + ' cov', out.cov, eP)
