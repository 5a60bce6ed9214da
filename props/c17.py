"""C17: failed node updates change nothing; marginals stay proper."""
from props import scenario
from props.common import np, gaussian, natural
from props.c16 import Tracker, Projection, KINDS, exercise, run, params

LinAlgError = np.linalg.LinAlgError


def moments(ctx, tr, label, old=None):
    """Mean and covariance every node reports; compared with an earlier result when given."""
    out = []
    for i, n in enumerate(tr.nodes):
        m, P = n.marginal.mean.copy(), n.marginal.cov.copy()
        if old is not None:
            ctx.eq('%s mean %d' % (label, i), m, old[i][0], tol=0)
            ctx.eq('%s cov %d' % (label, i), P, old[i][1], tol=0)
        out.append((m, P))
    return out


def positive(ctx, M):
    ms = ctx.minors(M)
    c = ms[0] > 0
    for x in ms[1:]:
        c = c & (x > 0)
    return c


PLACES = [('fwd', 2, 0), ('fwd', 2, 1), ('meas', 1, 0), ('meas', 2, 1), ('back', 2, 0), ('back', 3, 1)]


def raising(cls):
    def answer(e, k):
        raise cls('singular matrix')
    return answer


class Derived(LinAlgError):
    pass


@scenario('C17', [dict(kind=k, N=N, i=i, d=d, mode=m) for k, N, i in PLACES for d, m in ((1, 'natural'), (2, 'moment'))] +
          [dict(kind=k, N=N, i=i, d=d, mode=m, start=0.95) for k in KINDS for N, i, d, m in ((6, 3, 1, 'moment'), (9, 7, 2, 'natural'), (4, 1, 3, 'moment'))])
def projection_raises(ctx, kind, N, i, d, mode):
    power, damping = params(ctx, 'sym')
    tr = Tracker(ctx, N, d, mode)
    for cls in (LinAlgError, Derived):
        est = Projection(ctx, d, power, damping, raising(cls))
        tr.attach(est)
        before = moments(ctx, tr, '')
        for again in range(2):
            try:
                run(tr, kind, i)
            except LinAlgError:
                ctx.fail('the update does not raise')
        tr.check()
        tr.fixed()
        moments(ctx, tr, 'marginal', before)
    ctx.true('the projection was asked', len(est.calls) == 2)


def indefinite(d, neg):
    """A positive diagonal and neg negative eigenvalues (at most half of them): pairs of components that are too closely related."""
    H = [[0] * d for _ in range(d)]
    for i in range(d):
        H[i][i] = 1 + i / 8
    for j in range(neg):
        H[2 * j][2 * j + 1] = H[2 * j + 1][2 * j] = 2
    return H


@scenario('C17', [dict(kind=k, N=N, i=i, d=1) for k, N, i in PLACES] + [dict(kind=k, N=2, i=0, d=2, start=0.8) for k in KINDS] +
          [dict(kind=k, N=N, i=i, d=d, start=0.98) for k in KINDS for N, i, d in ((6, 4, 1), (3, 1, 2), (3, 1, 3))] +
          [dict(kind=k, N=2, i=0, d=d, neg=n, start=0.98) for k in KINDS for d, n in ((4, 2), (5, 2), (6, 2), (4, 1), (5, 0))], budget=60)
def any_covariance(ctx, kind, N, i, d, neg=None):
    """The projection returns an arbitrary symmetric covariance."""
    power, damping = params(ctx, 'sym')
    tr = Tracker(ctx, N, d)
    P, m = ctx.sym('xP', d, hint=None if neg is None else indefinite(d, neg)), ctx.vec('xm', d)
    pd = ctx.decide(positive(ctx, P))
    est = Projection(ctx, d, power, damping, lambda e, k: gaussian(m, P))
    tr.attach(est)
    before = moments(ctx, tr, '')
    if pd:
        L = ctx.inv(P)
        exercise(ctx, tr, est, kind, i, (L, L @ m))
    else:
        try:
            run(tr, kind, i)
        except LinAlgError:
            ctx.fail('the update does not raise')
        tr.check()
        moments(ctx, tr, 'marginal', before)
    tr.fixed()


@scenario('C17', [dict(kind=k, N=2, i=0, d=2, start=0.8) for k in KINDS] + [dict(kind=k, N=2, i=1, d=2, start=0.8) for k in ('fwd', 'meas')],
          budget=60)
def improper_marginal(ctx, kind, N, i, d):
    """A proper projection that would make the marginal improper (in one dimension that is the vague range)."""
    power, damping = params(ctx, 'sym')
    tr = Tracker(ctx, N, d, fhint=60)
    # inputs are named by the marginal B they would lead to; the projection that leads there follows from it
    B, s = ctx.sym('B', d, hint=[[1 if i == j else 2 for j in range(d)] for i in range(d)]), ctx.vec('xs', d)
    v = tr.nat[i]
    L = (v['forward_factor'] if kind == 'fwd' else v['marginal'])[0] + (B - v['marginal'][0]) * (power / damping)
    ctx.assume_pd(L, 'projection proper')
    ctx.assume(np.trace(L) >= 1e-9, 'projection not vague')
    marg = tr.target(kind, i, (L, s), power, damping)[2]
    t = np.trace(marg[0])
    ctx.assume((t >= 1e-3) & (t <= 100), 'not in the vague range; moderate')
    # an eigenvalue below -1e-9: the jitter of the conversion cannot make it positive
    ms = ctx.minors(marg[0] + ctx.array(np.eye(d)) * 1e-9)
    bad = ms[-1] < -1e-3
    ctx.assume(bad, 'the new marginal has a precision that is not positive definite')
    est = Projection(ctx, d, power, damping, lambda e, k: natural(L.copy(), s.copy()))
    tr.attach(est)
    before = moments(ctx, tr, '')
    try:
        run(tr, kind, i)
    except LinAlgError:
        ctx.fail('the update does not raise')
    tr.check()
    tr.fixed()
    moments(ctx, tr, 'marginal', before)


@scenario('C17', [dict(N=2, steps=2)], [dict(N=2, steps=3), dict(N=3, steps=2)], budget=90, max_paths=700)
def history(ctx, N, steps):
    """Any sequence of successful and failing updates."""
    power, damping = params(ctx, 'sym')
    tr = Tracker(ctx, N, 1)
    box = []

    def answer(e, k):
        if box[0] is None:
            raise LinAlgError('singular matrix')
        return box[0]
    est = Projection(ctx, 1, power, damping, answer)
    tr.attach(est)
    for j in range(steps):
        c = ctx.choose('step%d' % j, 3 * N - 1)
        kind, i = [(k, i) for i in range(N) for k in KINDS if not (k == 'back' and i + 1 == N)][c]
        how = ctx.choose('how%d' % j, 3)
        label = 'step %d ' % j
        if how == 0:
            L, s = ctx.real('x%dL' % j, '+'), ctx.real('x%ds' % j)
            ctx.assume(L >= 1e-9, 'projection not vague')
            box[:] = [natural(ctx.array([[L]]), ctx.array([s]))]
            if exercise(ctx, tr, est, kind, i, (ctx.array([[L]]), ctx.array([s])), label):
                ctx.assume(tr.nat[i]['marginal'][0][0, 0] >= 1e-9, 'marginal not vague')
        else:
            box[:] = [None if how == 1 else gaussian(ctx.vec('b%dm' % j, 1), -ctx.spd('b%dP' % j, 1))]
            try:
                run(tr, kind, i)
            except LinAlgError:
                ctx.fail(label + 'does not raise')
            tr.check(label)
    tr.fixed()
