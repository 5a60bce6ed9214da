"""C22: the tracking models implement their motion, bearing and noise equations."""
from props import scenario
from props.common import np, snap, unchanged


def sensors(ctx, n, cls):
    return [cls(x=ctx.real('sx%d' % i), y=ctx.real('sy%d' % i)) for i in range(n)]


def make(ctx, model, n, dt, Q, R):
    """The model and the sensor positions it should use."""
    if model == 'cv':
        from Systems import BearingsOnlyTracking as M
        from Systems.BearingsOnlyTracking import Sensor
        dflt = [(-10, 10), (10, 10), (-10, -10), (10, -10)]
    else:
        from Systems import BearingsOnlyTrackingTurn as M
        from Systems.BearingOnlyTrackingTurn import Sensor
        dflt = [(-20000, 20000), (20000, 20000), (-20000, -20000), (20000, -20000)]
    kw = dict(delta_t=dt)
    if Q is not None:
        kw['Q_sigma'] = Q
    if R is not None:
        kw['R_sigma'] = R
    if n == 'none':
        kw['sensor_list'] = None
    elif n != 'default':
        kw['sensor_list'] = sensors(ctx, n, Sensor)
        dflt = [(s.x, s.y) for s in kw['sensor_list']]
    return M(**kw), dflt


def move(ctx, model, x, dt):
    if model == 'cv':
        return np.array([x[0] + dt * x[2], x[1] + dt * x[3], x[2], x[3]])
    w = x[4]
    s, c = ctx.sin(w * dt), ctx.cos(w * dt)
    return np.array([x[0] + s / w * x[1] - (1 - c) / w * x[3], c * x[1] - s * x[3],
                     x[2] + (1 - c) / w * x[1] + s / w * x[3], s * x[1] + c * x[3], w])


def dmove(ctx, model, x, dt):
    if model == 'cv':
        J = np.eye(4) * ctx.const(1)
        J[0, 2] = J[1, 3] = dt
        return J
    w = x[4]
    s, c = ctx.sin(w * dt), ctx.cos(w * dt)
    J = np.eye(5) * ctx.const(1)
    J[0, 1], J[0, 3] = s / w, -(1 - c) / w
    J[1, 1], J[1, 3] = c, -s
    J[2, 1], J[2, 3] = (1 - c) / w, s / w
    J[3, 1], J[3, 3] = s, c
    ds, dc = (dt * c * w - s) / w ** 2, (dt * s * w - (1 - c)) / w ** 2      # of s/w and (1-c)/w
    J[0, 4] = ds * x[1] - dc * x[3]
    J[1, 4] = -dt * s * x[1] - dt * c * x[3]
    J[2, 4] = dc * x[1] + ds * x[3]
    J[3, 4] = dt * c * x[1] - dt * s * x[3]
    return J


def offsets(model, x, sens):
    iy = 1 if model == 'cv' else 2
    return [(x[0] - a, x[iy] - b) for a, b in sens], iy


def bearings(ctx, model, x, sens):
    return np.array([ctx.atan2(dy, dx) for dx, dy in offsets(model, x, sens)[0]])


def dbearings(ctx, model, x, sens):
    off, iy = offsets(model, x, sens)
    J = np.zeros((len(off), len(x))) * x[0]
    for i, (dx, dy) in enumerate(off):
        r = dx * dx + dy * dy
        J[i, 0], J[i, iy] = -dy / r, dx / r
    return J


def point(ctx, model, sens):
    x = ctx.vec('x', 4 if model == 'cv' else 5)
    if model == 'ct':
        ctx.assume(x[4] != 0, 'turning')
    for dx, dy in offsets(model, x, sens)[0]:
        ctx.assume(dx * dx + dy * dy > 0, 'not on a sensor')
    return x


BOTH = [dict(model=m, n=n) for m in ('cv', 'ct') for n in ('default', 'none', 1, 2, 3)]


@scenario('C22', BOTH + [dict(model=m, n=5, start=0.8) for m in ('cv', 'ct')], [dict(model=m, n=n) for m in ('cv', 'ct') for n in (5, 8)])
def functions(ctx, model, n):
    dt = ctx.real('dt', '+', hint=0.5)
    s, sens = make(ctx, model, n, dt, None, None)
    x = point(ctx, model, sens)
    c, = snap(x)
    ctx.eq('transition', np.ravel(s.transition(x)), move(ctx, model, c, dt))
    ctx.eq('transition does not depend on time', np.ravel(s.transition(x, t=ctx.real('t'))), move(ctx, model, c, dt))
    ctx.eq('measurement', np.ravel(s.measurement(x)), bearings(ctx, model, c, sens))
    ctx.eq('measure', np.ravel(s.measure(x)), bearings(ctx, model, c, sens))
    ctx.eq('measurement does not depend on time', np.ravel(s.measurement(x, t=ctx.real('t'))), bearings(ctx, model, c, sens))
    unchanged(ctx, 'state', (x,), (c,))
    ctx.true('system dim', s.system_dim == len(x))
    ctx.true('measurement dim', s.measurement_dim == len(sens))
    ctx.true('noise dims', s.system_noise.dimension == len(x) and s.measurement_noise.dimension == len(sens))


@scenario('C22', BOTH + [dict(model=m, n=5, start=0.8) for m in ('cv', 'ct')])
def derivatives(ctx, model, n):
    from autograd import jacobian
    dt = ctx.real('dt', '+', hint=0.5)
    s, sens = make(ctx, model, n, dt, None, None)
    x = point(ctx, model, sens)
    ctx.eq('of the transition', np.reshape(jacobian(s.transition)(x), (len(x), len(x))), dmove(ctx, model, x, dt))
    ctx.eq('of the measurement', np.reshape(jacobian(s.measurement)(x), (len(sens), len(x))), dbearings(ctx, model, x, sens))


def vanish(ctx, dt, q):
    return [[dt ** 3 / 3 * q, dt ** 2 / 2 * q], [dt ** 2 / 2 * q, dt * q]]


@scenario('C22', [dict(model='cv', n=n, given=g) for n in ('default', 2, 'none') for g in (True, False)] +
          [dict(model='ct', n=n, given=g) for n in ('default', 2, 'none') for g in (True, False, 'each')])
def noises(ctx, model, n, given):
    dt = ctx.real('dt', '+', hint=0.5)
    one = np.eye(4) * ctx.const(1)
    k = n if isinstance(n, int) else 4
    if model == 'cv':
        q, r = (ctx.real('q', '+'), ctx.real('r', '+')) if given else (0.01, 0.001)
        s, sens = make(ctx, model, n, dt, q if given else None, r if given else None)
        V = vanish(ctx, dt, q)
        E = one * 0
        for a in range(2):
            for b in range(2):
                E[2 * a, 2 * b] = E[2 * a + 1, 2 * b + 1] = V[a][b]
        eR = np.eye(k) * r
        m0, P0 = np.array([0.0, 0, 1, 0]), np.eye(4) * 0.1
    else:
        q1, q2 = (ctx.real('q1', '+'), ctx.real('q2', '+')) if given else (0.1, 1.75e-4)
        if given == 'each':
            rs = [ctx.real('r%d' % i, '+') for i in range(k)]
        else:
            rs = [ctx.real('r', '+')] if given else None
        s, sens = make(ctx, model, n, dt, [q1, q2] if given else None, rs)
        V = vanish(ctx, dt, q1)
        E = np.zeros((5, 5)) * dt
        for a in range(2):
            for b in range(2):
                E[a, b] = E[2 + a, 2 + b] = V[a][b]
        E[4, 4] = dt * q2
        eR = np.eye(k) * ctx.const(0)
        for i in range(k):
            eR[i, i] = 1e-5 if rs is None else rs[i % len(rs)] ** 2
        m0, P0 = np.array([1000, 300, 1000, 0, -3 * np.pi / 180]), np.diag([100, 10, 100, 10, 1e-4])
    ctx.eq('process noise', s.system_noise.cov, E)
    ctx.eq('transition noise', s.transition_noise.cov, E)
    ctx.eq('process noise mean', s.system_noise.mean, E[0] * 0)
    ctx.eq('measurement noise', s.measurement_noise.cov, eR)
    ctx.eq('measurement noise mean', s.measurement_noise.mean, eR[0] * 0)
    ctx.eq('initial mean', s.init_state.mean, m0)
    ctx.eq('initial cov', s.init_state.cov, P0)


@scenario('C22', [dict(model=m) for m in ('cv', 'ct')])
def two_systems(ctx, model):
    """A system built later, with other sensors and another step, does not affect one built before."""
    dt, dt2 = ctx.real('dt', '+', hint=0.5), ctx.real('dt2', '+', hint=0.25)
    s, sens = make(ctx, model, 2, dt, None, None)
    s0, sens0 = make(ctx, model, 'default', dt2, None, None)
    s1, sens1 = make(ctx, model, 'none', dt2, None, None)
    x = point(ctx, model, sens)
    for d in sens0:
        for dx, dy in offsets(model, x, [d])[0]:
            ctx.assume(dx * dx + dy * dy > 0, 'not on a sensor')
    for sy, se, t in ((s, sens, dt), (s0, sens0, dt2), (s1, sens1, dt2)):
        ctx.eq('transition', np.ravel(sy.transition(x)), move(ctx, model, x, t))
        ctx.eq('measurement', np.ravel(sy.measurement(x)), bearings(ctx, model, x, se))
        ctx.true('dims', sy.measurement_dim == len(se) and np.shape(sy.measurement_noise.cov) == (len(se), len(se)))
