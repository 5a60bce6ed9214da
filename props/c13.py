"""C13: filter and smoother on linear-Gaussian models, against conditioning the joint Gaussian of the whole series."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, condition, rts, NS
from props.c09 import state


class Linear:
    """x_{t} = A(t) x_{t-1} + a(t) + w, y_t = B(t) x_t + b(t) + v with arbitrary functions of time (or constants)."""

    def __init__(self, ctx, d, k, varying=True, init=None, spd=False):
        self.ctx, self.d, self.k, self.varying = ctx, d, k, varying
        if varying:
            self.fA, self.fB = ctx.fn('A', 1, d * d + d), ctx.fn('B', 1, k * d + k)
        else:
            self.A, self.a = ctx.mat('A', d, d), ctx.vec('a', d)
            self.B, self.b = ctx.mat('B', k, d), ctx.vec('b', k)
        # with positive definite noise every conditioning is well defined whatever A and B are
        self.Q, self.R = ctx.spd('Q', d), ctx.spd('R', k)
        self.dt = ctx.real('dt', '+', hint=0.5)
        self.init = init

    def trans(self, t):
        if not self.varying:
            return self.A, self.a
        v = self.fA.at(np.array([t]))
        return v[:self.d * self.d].reshape(self.d, self.d), v[self.d * self.d:]

    def meas(self, t):
        if not self.varying:
            return self.B, self.b
        v = self.fB.at(np.array([t]))
        return v[:self.k * self.d].reshape(self.k, self.d), v[self.k * self.d:]

    def system(self, rows=True):
        import autograd.numpy as anp

        def apply(x, M, c):
            if not rows and np.ndim(x) == 1:
                return anp.dot(M, x) + c
            return anp.dot(anp.atleast_2d(x), M.T) + c

        def f(x, t=None, u=None):
            return apply(x, *self.trans(t))

        def h(x, t=None, u=None):
            return apply(x, *self.meas(0 if t is None else t))
        return NS(transition=f, measurement=h, system_noise=NS(cov=self.Q), transition_noise=NS(cov=self.Q),
                  measurement_noise=NS(cov=self.R), init_state=self.init, dt=self.dt, system_dim=self.d,
                  measurement_dim=self.k)

    def joint(self, m0, P0, T, t0):
        """Mean and covariance of (x_1..x_T, y_1..y_T), as blocks."""
        d, k = self.d, self.k
        xm, X = [], {}
        m, P = m0, P0
        As = []
        for i in range(T):
            A, a = self.trans(t0 + i * self.dt)
            As.append(A)
            m, P = A @ m + a, A @ P @ A.T + self.Q0
            xm.append(m)
            X[i, i] = P
            for j in range(i - 1, -1, -1):
                X[i, j] = A @ X[i - 1, j]
                X[j, i] = X[i, j].T
        Bs = [self.meas(t0 + i * self.dt) for i in range(T)]
        ym = [Bs[i][0] @ xm[i] + Bs[i][1] for i in range(T)]
        Y, C = {}, {}
        for i in range(T):
            for j in range(T):
                C[i, j] = X[i, j] @ Bs[j][0].T
                Y[i, j] = Bs[i][0] @ C[i, j]
            Y[i, i] = Y[i, i] + self.R0
        return xm, X, ym, Y, C

    @property
    def Q0(self):
        return self.ctx.spd('Q', self.d)

    @property
    def R0(self):
        return self.ctx.spd('R', self.k)

    def posterior(self, m0, P0, ys, t0, i, upto):
        """Moments of x_{i+1} given y_1..y_upto."""
        xm, X, ym, Y, C = self.joint(m0, P0, len(ys), t0)
        S = np.concatenate([np.concatenate([Y[a, b] for b in range(upto)], axis=1) for a in range(upto)])
        Ci = np.concatenate([C[i, b] for b in range(upto)], axis=1)
        return condition(self.ctx, xm[i], X[i, i], np.concatenate(ym[:upto]), S, Ci, np.concatenate(list(ys[:upto])))


def rule(d, name):
    from MomentMatching import UnscentedTransform, TaylorTransform
    return UnscentedTransform(dim=d) if name == 'u' else TaylorTransform(dim=d)


def series(ctx, T, k):
    return np.array([ctx.vec('y%d' % i, k) for i in range(T)])


GRID = [dict(d=1, k=1, T=1), dict(d=1, k=1, T=2), dict(d=1, k=1, T=3), dict(d=2, k=1, T=1), dict(d=2, k=1, T=2, start=0.5), dict(d=1, k=2, T=1)]


@scenario('C13', [dict(g, tr='u', varying=True, given=i % 2 == 0) for i, g in enumerate(GRID)] +
          [dict(g, tr='t', varying=True, given=i % 2 == 1) for i, g in enumerate(GRID)] +
          [dict(d=1, k=1, T=6, tr='u', varying=True, given=False, start=0.8), dict(d=1, k=1, T=8, tr="t", varying=True, given=True, start=0.95),
           dict(d=2, k=2, T=4, tr="u", varying=True, given=False, start=0.97), dict(d=3, k=2, T=3, tr='t', varying=True, given=False, start=0.9)],
          [dict(d=2, k=1, T=2, tr='u', varying=False, given=True), dict(d=1, k=1, T=4, tr='u', varying=True, given=True), dict(d=2, k=2, T=2, tr='u', varying=True, given=True),
           dict(d=2, k=1, T=3, tr='u', varying=False, given=True)], budget=90)
def exact(ctx, d, k, T, tr, varying, given):
    from Filters.KalmanFilter import KalmanFilterSmoother
    g0, m0, P0, arrs = state(ctx, d, name='i')
    other, _, _, oarrs = state(ctx, d, name='o')
    lin = Linear(ctx, d, k, varying, init=other if given else g0)
    kf = KalmanFilterSmoother(rule(d, tr), lin.system())
    t0 = ctx.real('t0', hint=0.5)
    ys = series(ctx, T, k)
    inputs = tuple(arrs) + tuple(oarrs) + (lin.Q, lin.R, ys)
    copies = snap(*inputs)
    kw = dict(prior_state=g0) if given else {}
    filt = kf.kalman_filter(ys, t_zero=t0, **kw)
    ctx.true('one filtered state per step', len(filt) == T)
    for i in range(T):
        em, eP = lin.posterior(m0, P0, copies[-1], t0, i, i + 1)
        ctx.eq('filtered mean %d' % i, filt[i].mean, em)
        ctx.eq('filtered cov %d' % i, filt[i].cov, eP)
    before = list(filt)
    mom = [(f.mean.copy(), f.cov.copy()) for f in filt]
    sm = kf.kalman_smoother(filt, t_zero=t0)
    ctx.true('one smoothed state per step', len(sm) == T)
    ctx.true('filtered list unchanged', len(filt) == T and all(a is b for a, b in zip(filt, before)))
    for i in range(T):
        em, eP = lin.posterior(m0, P0, copies[-1], t0, i, T)
        ctx.eq('smoothed mean %d' % i, sm[i].mean, em)
        ctx.eq('smoothed cov %d' % i, sm[i].cov, eP)
        ctx.eq('filtered state unchanged %d' % i, filt[i].mean, mom[i][0], tol=0)
        ctx.eq('filtered state cov unchanged %d' % i, filt[i].cov, mom[i][1], tol=0)
    ctx.eq('last mean', sm[-1].mean, mom[-1][0], tol=0)
    ctx.eq('last cov', sm[-1].cov, mom[-1][1], tol=0)
    unchanged(ctx, 'input', inputs, copies)
    ctx.eq('time step', kf.dt, lin.dt, tol=0)


@scenario('C13', [dict(d=1, T=2, pos=0), dict(d=1, T=3, pos=1), dict(d=2, T=2, pos=0), dict(d=1, T=8, pos=0, start=0.8), dict(d=3, T=3, pos=0, start=0.9)], [dict(d=2, T=3, pos=0), dict(d=1, T=5, pos=0), dict(d=3, T=2, pos=0)], budget=60)
def recursion(ctx, d, T, pos):
    """Any model and rule: the runs chain the elementary updates at times t0 + i*dt with the right data."""
    from Filters.KalmanFilter import KalmanFilterSmoother
    from props.c12 import model
    tr, mm = ctx.transform('T', d, d, spd=True), ctx.transform('M', d, 1, spd=True)
    Q, R = ctx.spd('Q', d), ctx.spd('R', 1)
    g0, m0, P0, arrs = state(ctx, d, name='i')
    sysm, f, h = model(ctx, d, 1, Q, R, init=g0, dt=ctx.real('dt', hint=0.5))
    kf = KalmanFilterSmoother(tr, sysm, meas_moment_matching=mm)
    t0, u = ctx.real('t0', hint=2), ctx.real('u', hint=0.5)
    ys = series(ctx, T, 1)
    inputs = tuple(arrs) + (Q, R, ys)
    copies = snap(*inputs)
    filt = kf.kalman_filter(ys, t_zero=t0, u=u)
    sm = kf.kalman_smoother(filt, u=u, t_zero=t0)
    ctx.true('one filtered state per step', len(filt) == T)
    ctx.true('one smoothed state per step', len(sm) == T)
    Q, R, ys = copies[-3:]
    times = [t0 + i * sysm.dt for i in range(T)]
    m, P = m0, P0
    for i in range(T):
        z, S, _ = tr(lambda x: f(x, times[i], u), NS(mean=m, cov=P))
        m, P = z, S + Q
        z, S, C = mm(lambda x: h(x, times[i], u), NS(mean=m, cov=P))
        m, P = condition(ctx, m, P, z, S + R, C, ys[i])
        ctx.eq('filtered mean %d' % i, filt[i].mean, m)
        ctx.eq('filtered cov %d' % i, filt[i].cov, P)
        m, P = filt[i].mean, filt[i].cov
    ctx.eq('last mean', sm[-1].mean, filt[-1].mean, tol=0)
    ctx.eq('last cov', sm[-1].cov, filt[-1].cov, tol=0)
    for i in range(T - 2, -1, -1):
        z, S, C = tr(lambda x: f(x, times[i + 1], u), filt[i])
        m, P = rts(ctx, filt[i].mean, filt[i].cov, z, S + Q, C, sm[i + 1].mean, sm[i + 1].cov)
        ctx.eq('smoothed mean %d' % i, sm[i].mean, m)
        ctx.eq('smoothed cov %d' % i, sm[i].cov, P)
    unchanged(ctx, 'input', inputs, copies)
