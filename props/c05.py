"""C05: scores."""
import math
from props import scenario
from props.common import np, NS, cov, SPARSE


def true_nll(ctx, m, P, x, d):
    e = x - m
    return (ctx.const(d * math.log(2 * math.pi)) + ctx.log(ctx.det(P)) + e @ ctx.inv(P) @ e) / 2


@scenario('C05', [dict(d=d, mode=m, row=r) for d in (1, 2, 3) for m in ('moment', 'natural') for r in (False, True)] +
          [dict(d=4, mode=m, row=False, pat=p) for m in ('moment', 'natural') for p in SPARSE] + [dict(d=5, mode='moment', row=False, start=0.9), dict(d=5, mode='moment', row=True, pat='chain', start=0.5)],
          [dict(d=4, mode='moment', row=False)], budget=60)
def one_point(ctx, d, mode, row, pat=None):
    from StateModel import Gaussian
    m, P, x = ctx.vec('m', d), cov(ctx, 'P', d, pat), ctx.vec('x', d)
    if mode == 'moment':
        g = Gaussian(m, P)
    else:
        L = ctx.inv(P)
        ctx.assume(np.trace(L) >= 1e-9, 'precision not vague')
        g = Gaussian.from_natural(L, L @ m)
    arg = x.reshape(1, d) if row else x
    ctx.eq('nll', np.ravel(g.nll(arg)), np.array([true_nll(ctx, m, P, x, d)]))
    e = x - m
    ctx.eq('squared error', np.ravel(g.squared_error(arg)), np.array([e @ e]))


@scenario('C05', [dict(d=1, T=T) for T in (1, 2, 3)] + [dict(d=2, T=2), dict(d=1, T=6, start=0.5), dict(d=1, T=12, start=0.8), dict(d=2, T=5, start=0.8), dict(d=4, T=2, start=0.9)], [dict(d=1, T=5), dict(d=2, T=3), dict(d=3, T=2)], budget=60)
def sequences(ctx, d, T):
    from StateModel import Gaussian
    from Utils import Metrics
    ms = [ctx.vec('m%d_' % i, d) for i in range(T)]
    Ps = [ctx.spd('P%d_' % i, d) for i in range(T)]
    xs = [ctx.vec('x%d_' % i, d) for i in range(T)]
    gs = [Gaussian(m.copy(), P.copy()) for m, P in zip(ms, Ps)]
    nll = sum(true_nll(ctx, m, P, x, d) for m, P, x in zip(ms, Ps, xs)) / T
    mse = sum((x - m) @ (x - m) for m, x in zip(ms, xs)) / T
    ctx.eq('mean nll', Metrics.nll(gs, xs), nll)
    r = Metrics.rmse(gs, xs)
    ctx.true('rmse nonnegative', r >= 0)
    ctx.eq('rmse squared', r * r, mse)
    nodes = [NS(marginal=g) for g in gs]
    out = Metrics.node_metrics(nodes, xs)
    ctx.true('two metrics', len(out) == 2)
    ctx.eq('node rmse squared', out[0] * out[0], mse)
    ctx.true('node rmse nonnegative', out[0] >= 0)
    ctx.eq('node nll', out[1], nll)
    # iterators are sequences too
    ctx.eq('arrays', Metrics.nll(gs, np.array(xs)), nll)


@scenario('C05', [dict(d=1, T=T, start=.995) for T in (701, 1031)] + [dict(d=2, T=259, start=.995)])
def long_series(ctx, d, T):
    """The error of a long series: nothing left out, whatever the length."""
    from StateModel import Gaussian
    from Utils import Metrics
    ms, xs = [ctx.vec('m%d_' % i, d) for i in range(T)], [ctx.vec('x%d_' % i, d) for i in range(T)]
    P = ctx.spd('P', d)
    gs = [Gaussian(m, P) for m in ms]
    mse = sum((x - m) @ (x - m) for m, x in zip(ms, xs)) / T
    r = Metrics.rmse(gs, xs)
    ctx.eq('rmse squared', r * r, mse)
    out = Metrics.node_metrics([NS(marginal=g) for g in gs], xs)
    ctx.eq('node rmse squared', out[0] * out[0], mse)
