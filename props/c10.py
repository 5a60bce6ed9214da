"""C10: the Estimator's measurement update."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, condition, cov, SPARSE, MOVES, simple_map, library_map
from props.c09 import state


@scenario('C10', [dict(d=d, k=k, mode=m) for d, k in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (3, 2)) for m in ('moment', 'natural')]
          + [dict(d=2, k=3, mode='moment'), dict(d=5, k=3, mode='moment', start=0.8), dict(d=2, k=5, mode='moment', start=0.9)] + [dict(d=3, k=3, mode='moment', pat=p) for p in SPARSE],
          [dict(d=4, k=2, mode='moment'), dict(d=2, k=4, mode='moment'), dict(d=3, k=3, mode='moment')], budget=60)
def measurement_update(ctx, d, k, mode, pat=None):
    from MomentMatching.Estimator import Estimator
    tm, mm = ctx.transform('T', d, d), ctx.transform('M', d, k)
    h = ctx.fn('h', d, k)
    al = ctx.real('power', '+', hint=0.5)
    Q, R = ctx.sym('Q', d), (cov(ctx, 'R', k, pat) if pat else ctx.sym('R', k))
    y = ctx.vec('y', k)
    est = Estimator(tm, mm, Q, R, power=al, damping=ctx.real('damp', '+'))
    g, m, P, arrs = state(ctx, d, mode, pat=pat)
    inputs = tuple(arrs) + (R, y)
    copies = snap(*inputs)
    try:
        out = est.proj_meas(h, g, y)
    except np.linalg.LinAlgError:
        # allowed when the predicted covariance of the observation is not positive definite
        if not mm.calls:
            ctx.fail('LinAlgError before matching', 'the state covariance is positive definite')
            return
        ms = ctx.minors(mm.calls[0]['row']['S'] + copies[2] / al)
        bad = ms[0] <= 0
        for x in ms[1:]:
            bad = bad | (x <= 0)
        ctx.true('LinAlgError only if the covariance is not positive definite', bad)
        return
    row = mm.calls[0]['row']
    em, eP = condition(ctx, m, P, row['z'], row['S'] + copies[2] / al, row['C'], copies[3])
    ctx.eq('mean', out.mean, em)
    ctx.eq('cov', out.cov, eP)
    ctx.true('dimension', out.dim == d)
    ctx.true('only the measurement map is used', len(tm.calls) == 0)
    for c in mm.calls:
        ctx.eq('map sees the state mean', c['m'], m)
        ctx.eq('map sees the state covariance', c['P'], P)
    unchanged(ctx, 'input', inputs, copies)


@scenario('C10', [dict(d=1, form=f) for f in ('scalar', 'zero-d', 'list')] + [dict(d=2, form='scalar'), dict(d=3, form='zero-d')])
def scalar_observation(ctx, d, form):
    """One observed component, given as a number, a zero-dimensional array or a list."""
    from MomentMatching.Estimator import Estimator
    tm, mm = ctx.transform('T', d, d), ctx.transform('M', d, 1)
    h = ctx.fn('h', d, 1)
    al = ctx.real('power', '+', hint=1)
    R, y = ctx.sym('R', 1), ctx.real('y')
    est = Estimator(tm, mm, ctx.sym('Q', d), R, power=al)
    g, m, P, _ = state(ctx, d)
    arg = y if form == 'scalar' else [y] if form == 'list' else np.squeeze(np.array([[y]], dtype=object if ctx.symbolic else float))
    ctx_S = None
    try:
        out = est.proj_meas(h, g, arg)
    except np.linalg.LinAlgError:
        ctx.true('LinAlgError only if not positive definite', (mm.calls[0]['row']['S'] + ctx.sym('R', 1) / al)[0, 0] <= 0)
        return
    row = mm.calls[0]['row']
    em, eP = condition(ctx, m, P, row['z'], row['S'] + ctx.sym('R', 1) / al, row['C'], np.array([y]))
    ctx.eq('mean', out.mean, em)
    ctx.eq('cov', out.cov, eP)


@scenario('C10', [dict(d=1, k=1), dict(d=2, k=1)], [dict(d=2, k=2)])
def sequence(ctx, d, k):
    """Updates do not influence one another through the estimator."""
    from MomentMatching.Estimator import Estimator
    tm, mm = ctx.transform('T', d, d), ctx.transform('M', d, k, spd=True)
    h = ctx.fn('h', d, k)
    al = ctx.real('power', '+', hint=1)
    est = Estimator(tm, mm, ctx.sym('Q', d), ctx.spd('R', k), power=al)
    y1, y2 = ctx.vec('y', k), ctx.vec('yy', k)
    g, m, P, _ = state(ctx, d)
    g2, m2, P2, _ = state(ctx, d, name='v')
    for i, (s, y, sm, sP) in enumerate(((g, y1, m, P), (g2, y2, m2, P2), (g, y2, m, P))):
        n = len(mm.calls)
        out = est.proj_meas(h, s, y)
        row = mm.calls[n]['row']
        em, eP = condition(ctx, sm, sP, row['z'], row['S'] + ctx.spd('R', k) / al, row['C'], y)
        ctx.eq('mean %d' % i, out.mean, em)
        ctx.eq('cov %d' % i, out.cov, eP)


@scenario('C10', [dict(d=d, k=k, move=mv) for d in (1, 3) for k in 'ut' for mv in MOVES], budget=60)
def real_maps(ctx, d, k, move):
    """With the library's own transforms, measuring the state itself, shifted, reversed or in part."""
    from MomentMatching.Estimator import Estimator
    t = library_map(d, k)
    h, A, b = simple_map(ctx, d, move)
    n = len(A)
    R, al = ctx.spd('R', n), ctx.real('power', '+', hint=0.5)
    est = Estimator(t, t, ctx.spd('Q', d), R, power=al)
    g, m, P, arrs = state(ctx, d)
    y = ctx.vec('y', n)
    inputs = tuple(arrs) + (R, y)
    copies = snap(*inputs)
    for again in (1, 2):
        out = est.proj_meas(h, g, y)
        em, eP = condition(ctx, m, P, A @ m + b, A @ P @ A.T + copies[2] / al, P @ A.T, copies[3])
        ctx.eq('mean, call %d' % again, out.mean, em)
        ctx.eq('cov, call %d' % again, out.cov, eP)
        ctx.eq('covariance of the state, call %d' % again, g.cov, P)
    unchanged(ctx, 'input', inputs, copies)
