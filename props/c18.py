"""C18: one undamped EP sweep with power one is the Gaussian filter and smoother."""
from props import scenario
from props.common import np, snap, unchanged, NS
from props.c09 import state
from props.c12 import model
from props.c13 import series, Linear, rule


def chain(ctx, est, sysm, ys, d, farg=None):
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from StateModel import Gaussian
    nodes = build_nodes(N=len(ys), dim=d)
    for n in nodes:
        n.marginal = Gaussian.as_factor(d)
    nodes = node_estimator(nodes, est)
    return node_system(nodes, sysm, ys, farg) if farg else node_system(nodes, sysm, ys)


GRID = [dict(d=1, k=1, T=1, two=True), dict(d=1, k=1, T=2, two=True), dict(d=1, k=1, T=3, two=True), dict(d=1, k=2, T=2, two=False, start=0.5),
        dict(d=2, k=1, T=1, two=True, start=0.5), dict(d=2, k=1, T=2, two=True, start=0.8)]
LARGE = [dict(d=1, k=1, T=6, two=True, start=0.8), dict(d=3, k=2, T=2, two=True, start=0.98), dict(d=2, k=2, T=4, two=False, start=0.95)]


@scenario('C18', [dict(g, sweep=s) for g in GRID for s in ((True, False) if g['T'] < 3 else (True,))] + [dict(g, sweep=i % 2 == 0) for i, g in enumerate(LARGE)],
          [dict(d=1, k=1, T=4, two=True, sweep=True), dict(d=2, k=2, T=2, two=True, sweep=True), dict(d=3, k=1, T=1, two=True, sweep=True)], budget=90)
def same(ctx, d, k, T, two, sweep):
    """Any model and any moment-matching rules."""
    from MomentMatching.Estimator import Estimator
    from Filters.KalmanFilter import KalmanFilterSmoother
    from ExpectationPropagation import Iterations as it
    tr = ctx.transform('T', d, d, spd=True, small=True)
    mm = ctx.transform('M', d, k, spd=True, small=True) if two or d != k else tr
    Q, R = ctx.spd('Q', d), ctx.spd('R', k)
    g0, m0, P0, arrs = state(ctx, d, name='i')
    dt, u = ctx.real('dt', hint=0.5), ctx.real('u', hint=0.25)
    f, h = ctx.fn('f', d, d), ctx.fn('h', d, k)
    # the time of the measurement function is not passed by the nodes: a measurement that does not depend on it
    sysm = NS(transition=lambda x, t=None, u=None: f(x, t, u), measurement=lambda x, t=None, u=None: h(x),
              system_noise=NS(cov=Q), transition_noise=NS(cov=Q), measurement_noise=NS(cov=R), init_state=g0, dt=dt,
              system_dim=d, measurement_dim=k)
    ys = series(ctx, T, k)
    inputs = tuple(arrs) + (Q, R, ys)
    copies = snap(*inputs)
    est = Estimator(tr, mm, Q, R, power=1, damping=1)
    farg = [dict(t=i * dt, u=u) for i in range(T)]
    nodes = chain(ctx, est, sysm, ys, d, farg)
    kf = KalmanFilterSmoother(tr, sysm, meas_moment_matching=mm)
    filt = kf.kalman_filter(ys, u=u)
    sm = kf.kalman_smoother(filt, u=u)
    # rules whose joint covariance is not valid make EP reject its updates (C17)
    for g in list(filt) + list(sm):
        ctx.assume_pd(g.cov, 'filtered and smoothed covariances positive definite')
    pred = [kf.predict(p, t=i * dt, u=u) for i, p in enumerate([g0] + list(filt[:-1]))]
    for g in pred + list(filt) + list(sm):
        ctx.assume(np.trace(ctx.inv(g.cov)) >= 1e-9, 'no state is vague')
    if sweep:
        it.ep_fwd_back_updates(nodes)
    else:
        it.kalman_filter(nodes)
        for i in range(T):
            ctx.eq('filter mean %d' % i, nodes[i].marginal.mean, filt[i].mean)
            ctx.eq('filter cov %d' % i, nodes[i].marginal.cov, filt[i].cov)
        it.kalman_smoother(nodes)
    for i in range(T):
        ctx.eq('smoother mean %d' % i, nodes[i].marginal.mean, sm[i].mean)
        ctx.eq('smoother cov %d' % i, nodes[i].marginal.cov, sm[i].cov)
    unchanged(ctx, 'input', inputs, copies)


class Recorder:
    def __init__(self, i, log):
        self.i, self.log = i, log

    def fwd_update(self, *a, **k):
        self.log.append(('fwd', self.i))

    def meas_update(self, *a, **k):
        self.log.append(('meas', self.i))

    def back_update(self, *a, **k):
        self.log.append(('back', self.i))


@scenario('C18', [dict(N=N) for N in (1, 2, 3, 4, 7, 65, 130, 257, 1009)], [dict(N=5003)])
def order(ctx, N):
    from ExpectationPropagation import Iterations as it
    x = ctx.real('x')
    ctx.eq('reference', x, x)
    log = []
    nodes = [Recorder(i, log) for i in range(N)]
    fwd = [(k, i) for i in range(N) for k in ('fwd', 'meas')]
    back = [('back', i) for i in range(N - 1, -1, -1)]
    for name, exp in (('kalman_filter', fwd), ('kalman_smoother', back), ('ep_fwd_back_updates', fwd + back),
                      ('ep_update', [(k, i) for i in range(N) for k in ('fwd', 'meas', 'back')])):
        del log[:]
        getattr(it, name)(nodes)
        ctx.true(name + ' order', log == exp, note='%s' % (log[:40],))
