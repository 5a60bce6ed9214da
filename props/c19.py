"""C19: EP on linear-Gaussian models, against the joint posterior in information form."""
from props import scenario
from props.common import np, snap, unchanged, NS
from props.c09 import state
from props.c13 import Linear, rule, series
from props.c18 import chain


class Model(Linear):
    """Time-varying transition; the nodes evaluate the measurement without a time."""

    def meas(self, t):
        return Linear.meas(self, 0)


def posterior(ctx, lin, m0, P0, ys, M0, t0=0):
    """Natural parameters of every p(x_t | y), by inverting the information matrix of the whole chain.

    p(x_1) is the pushed-forward prior; M0 is the precision of the fixed factor on every node."""
    d, T = lin.d, len(ys)
    L = np.empty((T * d, T * d), dtype=object) if ctx.symbolic else np.zeros((T * d, T * d))
    if ctx.symbolic:
        L[:] = ctx.const(0)
    e = np.concatenate([0 * ys[0][0] + np.zeros(d) for _ in range(T)])
    e = ctx.array(e) if not ctx.symbolic else ctx.array([0] * (T * d))
    Qi, Ri = ctx.inv(lin.Q0), ctx.inv(lin.R0)
    s = lambda i: slice(i * d, (i + 1) * d)
    for i in range(T):
        A, a = lin.trans(t0 + i * lin.dt)
        B, b = lin.meas(0)
        if i == 0:
            V = ctx.inv(A @ P0 @ A.T + lin.Q0)
            L[s(0), s(0)] = L[s(0), s(0)] + V
            e[s(0)] = e[s(0)] + V @ (A @ m0 + a)
        else:
            L[s(i), s(i)] = L[s(i), s(i)] + Qi
            L[s(i - 1), s(i - 1)] = L[s(i - 1), s(i - 1)] + A.T @ Qi @ A
            L[s(i), s(i - 1)] = L[s(i), s(i - 1)] - Qi @ A
            L[s(i - 1), s(i)] = L[s(i - 1), s(i)] - A.T @ Qi
            e[s(i)] = e[s(i)] + Qi @ a
            e[s(i - 1)] = e[s(i - 1)] - A.T @ Qi @ a
        L[s(i), s(i)] = L[s(i), s(i)] + B.T @ Ri @ B + M0 * np.eye(d)
        e[s(i)] = e[s(i)] + B.T @ Ri @ (ys[i] - b)
    C = ctx.inv(L)
    m = C @ e
    return [(m[s(i)], C[s(i), s(i)]) for i in range(T)]


def system(lin):
    return lin.system()


def setup(ctx, d, k, T, tr, init, power, damping=1, varying=True):
    from MomentMatching.Estimator import Estimator
    from StateModel import Gaussian
    g0, m0, P0, arrs = state(ctx, d, name='i')
    lin = Model(ctx, d, k, varying, init=g0)
    r = rule(d, tr)
    est = Estimator(r, r, lin.Q, lin.R, power=power, damping=damping)
    ys = series(ctx, T, k)
    nodes = chain(ctx, est, system(lin), ys, d, [dict(t=i * lin.dt, u=0) for i in range(T)])
    if init == 'vague':
        for n in nodes:
            n.marginal = Gaussian.as_marginal(d)
    return lin, nodes, m0, P0, ys


def moderate(ctx, lin, m0, P0, ys, M0, al):
    """Keeps every precision that the code tests for vagueness well above the threshold."""
    if not isinstance(al, int):
        ctx.assume((al >= 0.01) & (al <= 100), 'power between 0.01 and 100')
    P = P0
    for i in range(len(ys)):
        A, _ = lin.trans(i * lin.dt)
        S = A @ P @ A.T
        ctx.assume(np.trace(ctx.inv(S + lin.Q0)) >= 1e-4, 'predicted covariance moderate')
        ctx.assume(np.trace(ctx.inv(S + lin.Q0 / al)) >= 1e-6, 'predicted covariance moderate')
        P = posterior(ctx, lin, m0, P0, ys[:i + 1], M0)[i][1]


G = [dict(d=1, k=1, T=1), dict(d=1, k=1, T=2), dict(d=1, k=1, T=3, start=0.5), dict(d=1, k=2, T=1), dict(d=2, k=1, T=1, start=0.8), dict(d=2, k=1, T=2, start=0.8)]


@scenario('C19', [dict(g, tr=t, init=i, power=p) for g in G for t, i, p in
                  ((('u', 'unit', 'sym'), ('t', 'vague', 'sym')) if g['T'] < 3 and g['d'] < 2 else (('u', 'unit', 'sym'),))] +
          [dict(d=1, k=1, T=2, tr='u', init='vague', power=1), dict(d=1, k=1, T=5, tr='t', init='unit', power='sym', start=0.9), dict(d=3, k=2, T=2, tr='u', init='unit', power='sym', start=0.95)],
          [dict(d=1, k=1, T=4, tr='u', init='unit', power='sym'), dict(d=2, k=2, T=2, tr='t', init='unit', power='sym')], budget=90)
def exact(ctx, d, k, T, tr, init, power):
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    al = ctx.real('power', '+', hint=0.5) if power == 'sym' else power
    lin, nodes, m0, P0, ys = setup(ctx, d, k, T, tr, init, al)
    M0 = 1e-10 if init == 'vague' else 0
    moderate(ctx, lin, m0, P0, ys, M0, al)
    ep_fwd_back_updates(nodes)
    exp = posterior(ctx, lin, m0, P0, ys, M0)
    for i in range(T):
        ctx.eq('mean %d' % i, nodes[i].marginal.mean, exp[i][0])
        ctx.eq('cov %d' % i, nodes[i].marginal.cov, exp[i][1])


FACTORS = ('marginal', 'forward_factor', 'measurement_factor', 'back_factor')


@scenario('C19', [dict(d=1, T=1, tr='u'), dict(d=1, T=2, tr='u', start=0.5), dict(d=1, T=2, tr='t', start=0.8), dict(d=2, T=1, tr='t', start=0.8), dict(d=1, T=4, tr='u', start=0.95), dict(d=2, T=3, tr='t', start=0.95)],
          [dict(d=1, T=3, tr='u')], budget=90)
def fixed_point(ctx, d, T, tr):
    """Every single update, with any damping, leaves exact messages as they are (hence every schedule does)."""
    from ExpectationPropagation.Iterations import ep_fwd_back_updates, ep_update
    al, ga = ctx.real('power', '+', hint=0.5), ctx.real('damping', '+', hint=0.25)
    lin, nodes, m0, P0, ys = setup(ctx, d, 1, T, tr, 'unit', al)
    moderate(ctx, lin, m0, P0, ys, 0, al)
    ep_fwd_back_updates(nodes)
    nat = [{f: (getattr(n, f).precision.copy(), getattr(n, f).shift.copy()) for f in FACTORS} for n in nodes]

    for v in nat:
        for f in ('measurement_factor', 'back_factor'):
            c = v['marginal'][0] - v[f][0]
            ctx.assume_pd(c, 'cavities proper (always so for a power up to one)')
            ctx.assume(np.trace(c) >= 1e-9, 'cavities not vague')

    def check(label):
        for i, n in enumerate(nodes):
            for f in FACTORS:
                ctx.eq('%s: %s %d precision' % (label, f, i), getattr(n, f).precision, nat[i][f][0])
                ctx.eq('%s: %s %d shift' % (label, f, i), getattr(n, f).shift, nat[i][f][1])
    from StateModel import Gaussian
    for n in nodes:
        n.damping = ga

    def restore():
        for n, v in zip(nodes, nat):
            for f in FACTORS:
                setattr(n, f, Gaussian.from_natural(v[f][0].copy(), v[f][1].copy()))
    for i in range(T):
        for kind in ('fwd', 'meas', 'back'):
            restore()
            getattr(nodes[i], kind + '_update')()
            check('%s %d' % (kind, i))


@scenario('C19', [dict(d=1, T=T, K=15, tr='u', schedule=s, start=0.97) for T, s in ((1, 'sweep'), (3, 'sweep'), (2, 'local'), (3, 'passes'))] + [dict(d=2, T=2, K=11, tr='u', schedule='sweep', start=0.99), dict(d=1, T=2, K=60, tr='u', schedule='sweep', start=0.99)], [], budget=60)
def many_sweeps(ctx, d, T, K, tr, schedule):
    """However often the sweeps are repeated afterwards, with any damping and in any of the offered schedules: the marginals stay exact."""
    from ExpectationPropagation import Iterations as it
    al, ga = ctx.real('power', '+', hint=0.5), ctx.real('damping', '+', hint=0.75)
    lin, nodes, m0, P0, ys = setup(ctx, d, 1, T, tr, 'unit', al)
    moderate(ctx, lin, m0, P0, ys, 0, al)
    it.ep_fwd_back_updates(nodes)
    exp = posterior(ctx, lin, m0, P0, ys, 0)
    for n in nodes:
        n.damping = ga
        for f in ('measurement_factor', 'back_factor'):
            c = n.marginal.precision - getattr(n, f).precision
            ctx.assume_pd(c, 'cavities proper (always so for a power up to one)')
            ctx.assume(np.trace(c) >= 1e-9, 'cavities not vague')
    for s in range(K):
        if schedule == 'local':
            it.ep_update(nodes)
        elif schedule == 'passes':
            it.kalman_filter(nodes)
            it.kalman_smoother(nodes)
        else:
            it.ep_fwd_back_updates(nodes)
        for i in range(T):
            ctx.eq('sweep %d: mean %d' % (s + 2, i), nodes[i].marginal.mean, exp[i][0])
            ctx.eq('sweep %d: cov %d' % (s + 2, i), nodes[i].marginal.cov, exp[i][1])
