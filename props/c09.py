"""C09: the Estimator's time update."""
from props import scenario
from props.common import np, gaussian, natural, snap, unchanged, cov, SPARSE, simple_map, library_map


def state(ctx, d, mode='moment', name='x', pat=None):
    """(Gaussian, mean, cov, arrays it was built from)"""
    if mode == 'moment':
        m, P = ctx.vec(name + 'm', d), cov(ctx, name + 'P', d, pat)
        return gaussian(m, P), m.copy(), P.copy(), (m, P)
    L, s = cov(ctx, name + 'L', d, pat), ctx.vec(name + 's', d)
    ctx.assume(np.trace(L) >= 1e-9, 'precision not vague')
    P = ctx.inv(L)
    return natural(L, s), P @ s, P, (L, s)


@scenario('C09', [dict(d=d, n=n, mode=m) for d, n in ((1, 1), (2, 2), (3, 3), (2, 1), (1, 2)) for m in ('moment', 'natural')] +
          [dict(d=4, n=4, mode='moment', pat=p) for p in SPARSE] + [dict(d=5, n=5, mode='moment', start=0.8), dict(d=6, n=6, mode='natural', start=0.9)],
          [dict(d=4, n=4, mode='moment'), dict(d=5, n=3, mode='moment')], budget=60)
def time_update(ctx, d, n, mode, pat=None):
    from MomentMatching.Estimator import Estimator
    tm, mm = ctx.transform('T', d, n), ctx.transform('M', d, 1)
    f = ctx.fn('f', d, n)
    al = ctx.real('power', '+', hint=0.5)
    Q, R = (cov(ctx, 'Q', n, pat) if pat else ctx.sym('Q', n)), ctx.sym('R', 1)
    Q0 = Q.copy()
    est = Estimator(trans_map=tm, meas_map=mm, trans_noise=Q, meas_noise=R, power=al, damping=ctx.real('damp', '+'))
    g, m, P, arrs = state(ctx, d, mode, pat=pat)
    copies = snap(*arrs)
    try:
        out = est.proj_trans(f, g)
    except np.linalg.LinAlgError:
        row = tm.calls[0]['row']
        ms = ctx.minors((row['S'] + Q0) / al)
        bad = ms[0] <= 0
        for x in ms[1:]:
            bad = bad | (x <= 0)
        ctx.true('LinAlgError only if the covariance is not positive definite', bad)
        unchanged(ctx, 'state', arrs, copies)
        return
    row = tm.calls[0]['row']
    ctx.eq('mean', out.mean, row['z'])
    ctx.eq('cov', out.cov, (row['S'] + Q0) / al)
    ms = ctx.minors((row['S'] + Q0) / al)
    for x in ms:
        ctx.true('positive definite when returned', x > 0)
    ctx.true('only the transition map is used', len(mm.calls) == 0)
    for c in tm.calls:
        ctx.eq('map sees the state mean', c['m'], m)
        ctx.eq('map sees the state covariance', c['P'], P)
    ctx.true('function of the caller', len(f.calls) >= 1)
    unchanged(ctx, 'state', arrs, copies)
    ctx.eq('noise unchanged', Q, Q0, tol=0)
    ctx.eq('power unchanged', est.power, al, tol=0)


@scenario('C09', [dict(d=1), dict(d=2)], [dict(d=3)])
def repeated(ctx, d):
    """A second update with the same estimator is not influenced by the first, nor by the returned Gaussian being used."""
    from MomentMatching.Estimator import Estimator
    tm, mm = ctx.transform('T', d, d), ctx.transform('M', d, 1)
    f, f2 = ctx.fn('f', d, d), ctx.fn('g', d, d)
    al = ctx.real('power', '+', hint=2)
    Q = ctx.spd('Q', d)
    est = Estimator(tm, mm, Q, ctx.sym('R', 1), power=al)
    g, m, P, _ = state(ctx, d)
    h, m2, P2, _ = state(ctx, d, name='y')
    S1 = {}
    outs = []
    for fn, s in ((f, g), (f2, h), (f, g)):
        k = len(tm.calls)
        try:
            o = est.proj_trans(fn, s)
        except np.linalg.LinAlgError:
            continue
        outs.append((o, tm.calls[k]['row']))
        o.precision, (o * s).shift
    for i, (o, row) in enumerate(outs):
        ctx.eq('mean %d' % i, o.mean, row['z'])
        ctx.eq('cov %d' % i, o.cov, (row['S'] + ctx_Q(ctx, d)) / al)


def ctx_Q(ctx, d):
    return ctx.spd('Q', d)


@scenario('C09', [dict(d=1, k='u'), dict(d=2, k='u'), dict(d=1, k='t'), dict(d=2, k='t')] + [dict(d=d, k=k, move=mv) for d in (1, 3) for k in 'ut' for mv in ('shift', 'still', 'swap')])
def real_maps(ctx, d, k, move=None):
    """With the library's own transforms: affine transition (also shifts and permutations), Gaussian pushed forward exactly."""
    from MomentMatching.Estimator import Estimator
    import autograd.numpy as anp
    t = library_map(d, k)
    if move is None:
        A, b = ctx.mat('A', d, d), ctx.vec('b', d)
        f = lambda x: anp.dot(anp.atleast_2d(x), A.T) + b
    else:
        f, A, b = simple_map(ctx, d, move)
    Q, al = ctx.spd('Q', d), ctx.real('power', '+', hint=0.5)
    est = Estimator(t, t, Q, Q, power=al)
    g, m, P, arrs = state(ctx, d)
    copies = snap(*arrs)
    for again in (1, 2):
        out = est.proj_trans(f, g)
        ctx.eq('mean, call %d' % again, out.mean, A @ m + b)
        ctx.eq('cov, call %d' % again, out.cov, (A @ P @ A.T + ctx.spd('Q', d)) / al)
        ctx.eq('mean of the state, call %d' % again, g.mean, m)
        ctx.eq('covariance of the state, call %d' % again, g.cov, P)
    unchanged(ctx, 'state', arrs, copies)
    ctx.eq('noise unchanged', Q, ctx.spd('Q', d), tol=0)
