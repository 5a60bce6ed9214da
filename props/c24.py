"""C24: the models act row by row on batches."""
from props import scenario
from props.common import np, snap, unchanged
from props.c22 import sensors
from props.c23 import Patched

MODELS = ('cv', 'ct', 'ungm', 'l96', 'test')


def model(ctx, kind):
    """(system, state dimension, measurement dimension, arguments of the transition)."""
    dt = ctx.real('dt', '+', hint=0.5)
    t = ctx.real('t')
    if kind == 'cv':
        from Systems import BearingsOnlyTracking as M
        from Systems.BearingsOnlyTracking import Sensor
        return M(sensor_list=sensors(ctx, 2, Sensor), delta_t=dt), 4, 2, dict(t=t)
    if kind == 'ct':
        from Systems import BearingsOnlyTrackingTurn as M
        from Systems.BearingOnlyTrackingTurn import Sensor
        return M(sensor_list=sensors(ctx, 2, Sensor), delta_t=dt), 5, 2, dict(t=t)
    if kind == 'ungm':
        from Systems import UniformNonlinearGrowthModel as M
        return M(), 1, 1, dict(t=t)
    if kind == 'l96':
        from Systems import L96 as M
        with Patched(ctx.vec('i', 4)):
            return M(dim=4, F=ctx.real('F', hint=8), delta_t=dt), 4, 4, dict(t=t)
    from Systems import TestDynamics as M
    return M(), 1, 1, dict(t=t, u=ctx.real('u'))


def rows(ctx, kind, B, d):
    if kind == 'l96':            # two free components per row
        X = np.array([[ctx.real('x%d%d' % (b, i)) if i < (2 if b == 0 else 1) else ctx.const(((b + 3) * i % 5 - 2) / 2) for i in range(d)] for b in range(B)])
    else:
        X = ctx.mat('x', B, d, **(dict(lo=-5, hi=14) if kind == 'test' and B < 3 else dict(lo=0, hi=9) if kind == 'test' else {}))
    if kind == 'ct':
        for b in range(B):
            ctx.assume(X[b, 4] != 0, 'turning')
    return X


def compare(ctx, label, fn, X, k, kw):
    B, d = X.shape
    c, = snap(X)
    Y = fn(X, **kw)
    unchanged(ctx, label + ' input', (X,), (c,))
    ctx.true(label + ' shape', np.shape(Y) == (B, k), note='shape %s for %s' % (np.shape(Y), X.shape))
    if np.shape(Y) != (B, k):
        return
    for b in range(B):
        for how, x in (('vector', c[b].copy()), ('row', c[b:b + 1].copy())):
            x0, = snap(x)
            y = fn(x, **kw)
            unchanged(ctx, '%s %s input' % (label, how), (x,), (x0,))
            ctx.eq('%s row %d, alone as %s' % (label, b, how), Y[b], np.ravel(y))
    if B > 1:                    # order of the rows, and repeated rows
        P = list(range(1, B)) + [0]
        ctx.eq(label + ' permuted', fn(c[P], **kw), Y[P])
        ctx.eq(label + ' repeated', fn(np.array([c[0]] * B), **kw), np.array([Y[0]] * B))


@scenario('C24', [dict(kind=k, B=B) for k in MODELS for B in (1, 2, 3)] + [dict(kind=k, B=6, start=0.8) for k in MODELS], [dict(kind=k, B=B) for k in MODELS for B in (4, 5)], budget=60)
def batches(ctx, kind, B):
    s, d, k, kw = model(ctx, kind)
    X = rows(ctx, kind, B, d)
    compare(ctx, 'transition', s.transition, X, d, kw)
    compare(ctx, 'measurement', s.measurement, X, k, {})


@scenario('C24', [dict(kind=k, B=B) for k in ('cv', 'ct', 'ungm', 'l96') for B in (1, 2, 3)])
def outputs_are_new(ctx, kind, B):
    """Changing a result in place does not change the batch it was computed from."""
    s, d, k, kw = model(ctx, kind)
    X = rows(ctx, kind, B, d)
    c, = snap(X)
    for label, Y in (('transition', s.transition(X, **kw)), ('measurement', s.measurement(X))):
        Y += 1
        unchanged(ctx, label, (X,), (c,))
        ctx.eq(label + ' again', s.transition(X, **kw) if label == 'transition' else s.measurement(X), Y - 1)


@scenario('C24', [dict(kind=k, B=B) for k in ('cv', 'ct', 'ungm', 'l96') for B in (5, 20)])
def many_rows(ctx, kind, B):
    """Large batches with one free row among fixed ones (the number of sigma points of a high-dimensional state)."""
    s, d, k, kw = model(ctx, kind)
    free = B - 2
    X = np.array([[ctx.real('x%d' % i) if b == free and (i < 2 or kind != 'l96') else ctx.const(((b + 3) * (i + 2) % 7 - 2.5) / 2) for i in range(d)] for b in range(B)])
    if kind == 'ct':
        ctx.assume(X[free, 4] != 0, 'turning')
    keep, = snap(X)
    for label, fn, kk, a in (('transition', s.transition, d, kw), ('measurement', s.measurement, k, {})):
        Y = fn(X, **a)
        for b in (0, free - 1, free, B - 1):
            ctx.eq('%s input, row %d' % (label, b), X[b], keep[b], tol=0)
        ctx.true(label + ' shape', np.shape(Y) == (B, kk), note='shape %s' % (np.shape(Y),))
        if np.shape(Y) == (B, kk):
            for b in (0, B // 2, free - 1, free, B - 1):
                ctx.eq('%s row %d' % (label, b), Y[b], np.ravel(fn(X[b], **a)))
