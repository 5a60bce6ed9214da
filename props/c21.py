"""C21: simulated trajectories follow the state-space model with independent additive noise."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, NS, patterned, PATTERNS
from props.c08 import law


def block(mats):
    n = sum(len(m) for m in mats)
    E = np.zeros((n, n)) * mats[0][0, 0]
    i = 0
    for m in mats:
        E[i:i + len(m), i:i + len(m)] = m
        i += len(m)
    return E


def noise(ctx, name, d, mean):
    from Systems import GaussianNoise
    Q = ctx.spd(name, d)
    if mean:
        mu = ctx.vec(name + 'm', d)
        return GaussianNoise(dimension=d, cov=Q, mean=mu), Q, mu
    return GaussianNoise(dimension=d, cov=Q), Q, np.zeros(d) * Q[0, 0]


def build(ctx, kind, d, k, f, h, wn, vn, init, dt):
    from Systems import DynamicSystemModel
    from Systems.DynamicSystem import DynamicSystem
    if kind == 'model':
        return DynamicSystemModel(system_dim=d, measurement_dim=k, transition=lambda x, t=None, u=None: f(x, t),
                                  measurement=lambda x, t=None, u=None: h(x), system_noise=wn, measurement_noise=vn,
                                  init_distribution=init, dt=dt)

    class Sub(DynamicSystem):
        def transition(self, x, u=None, t=None):
            return f(x, t)

        def measure(self, x):
            return h(x)
    s = Sub()
    s.system_noise, s.measurement_noise, s.dt, s.init_state = wn, vn, dt, init
    return s


def steps(data, N):
    """Trajectory as lists of vectors."""
    return [np.ravel(x) for x, y in data], [np.ravel(y) for x, y in data]


GRID = [dict(d=1, k=1, N=1, x0='given', kind='model'), dict(d=1, k=1, N=2, x0='given', kind='model'),
        dict(d=1, k=1, N=3, x0='drawn', kind='model'), dict(d=2, k=1, N=2, x0='given', kind='model'),
        dict(d=1, k=2, N=2, x0='drawn', kind='model'), dict(d=1, k=1, N=2, x0='given', kind='sub'),
        dict(d=1, k=2, N=2, x0='drawn', kind='sub'), dict(d=2, k=2, N=2, x0='drawn', kind='model')]


@scenario('C21', [dict(g, mean=m) for g in GRID for m in (False, True)] +
          [dict(d=1, k=1, N=12, x0='given', kind='model', mean=True, start=0.8), dict(d=5, k=3, N=2, x0='drawn', kind='model', mean=False, start=0.9),
           dict(d=3, k=4, N=3, x0='given', kind='sub', mean=True, start=0.9), dict(d=2, k=1, N=10, x0='given', kind='sub', mean=False, start=0.9)],
          [dict(d=3, k=2, N=3, x0='drawn', kind='model', mean=True), dict(d=1, k=1, N=6, x0='given', kind='model', mean=True),
           dict(d=2, k=3, N=3, x0='given', kind='sub', mean=False)])
def trajectory(ctx, d, k, N, x0, kind, mean):
    src = ctx.source()
    f, h = ctx.fn('f', d, d), ctx.fn('h', d, k)
    wn, Q, wm = noise(ctx, 'Q', d, mean)
    vn, R, vm = noise(ctx, 'R', k, mean)
    m0, P0 = ctx.vec('m', d), ctx.spd('P', d)
    dt, t0 = ctx.real('dt', hint=0.5), ctx.real('t0', hint=0.25)
    sysm = build(ctx, kind, d, k, f, h, wn, vn, gaussian(m0, P0), dt)
    xz = ctx.vec('x', d)
    watch = (Q, R, wm, vm, m0, P0, xz)
    copies = snap(*watch)

    def sim():
        return sysm.simulate(N, x_zero=xz, t_zero=t0) if x0 == 'given' else sysm.simulate(N, t_zero=t0)

    data = sim()
    ctx.true('length', len(data) == N)
    unchanged(ctx, 'inputs', watch, copies)
    if x0 == 'given':
        def draw():
            xs, ys = steps(sim(), N)
            prev = [copies[-1]] + xs
            parts = []
            for i in range(N):
                parts += [xs[i] - f.at(prev[i], t0 + i * dt), ys[i] - h.at(xs[i])]
            return np.concatenate(parts).reshape(1, -1)
        law(ctx, 'noise', draw, np.concatenate([wm, vm] * N), block([Q, R] * N), src, None)
        return

    # the initial state is not reported; it is the first argument given to the transition
    def draw0():
        f.calls.clear()
        xs, ys = steps(sim(), N)
        first = np.ravel(f.calls[0][0])
        prev = [first] + xs
        parts = [first]
        for i in range(N):
            parts += [xs[i] - f.at(prev[i], t0 + i * dt), ys[i] - h.at(xs[i])]
        return np.concatenate(parts).reshape(1, -1)
    law(ctx, 'initial state and noise', draw0, np.concatenate([m0] + [wm, vm] * N), block([P0] + [Q, R] * N), src, None)


@scenario('C21', [dict(N=N, kind=kind) for N in (40, 130, 300, 1000) for kind in ('model', 'sub')], [dict(N=5000, kind='model')])
def long_run(ctx, N, kind):
    """Long series: every random number enters one noise, and the noises are independent with the right variances."""
    src = ctx.source()
    few = [ctx.real('w#%d' % i) for i in range(4)]
    spots = (1, N // 2, N + 1, 2 * N - 2)
    z = [few[spots.index(i)] if i in spots else ctx.const((i * i % 11 - 4) / 4) for i in range(2 * N)]
    src.reset(lambda i: z[i] if i < len(z) else 0)
    x0, t0, dt = ctx.vec('x', 1), ctx.real('t0', hint=0.25), ctx.real('dt', hint=0.5)
    from Systems import GaussianNoise
    wn, vn = GaussianNoise(dimension=1, cov=ctx.array([[4]])), GaussianNoise(dimension=1, cov=ctx.array([[9]]))
    f, h = (lambda x, t: 1 - x + t), (lambda x: 2 * x - 1)
    sysm = build(ctx, kind, 1, 1, f, h, wn, vn, gaussian(x0, ctx.array([[1]])), dt)
    xs, ys = steps(sysm.simulate(N, x_zero=x0, t_zero=t0), N)
    ctx.true('as many random numbers as noises', src.n == 2 * N, note='%d' % src.n)
    ctx.true('length', len(xs) == N)
    prev = [x0] + xs
    r = [(xs[i] - f(prev[i], t0 + i * dt))[0] / 2 for i in range(N)] + [(ys[i] - h(xs[i]))[0] / 3 for i in range(N)]
    # an affine map is orthogonal exactly when it keeps the length of every vector
    total, want = 0, 0
    for i in range(2 * N):
        total, want = total + r[i] * r[i], want + z[i] * z[i]
    ctx.eq('independent noises', total, want)


@scenario('C21', [dict(d=d, N=N, kind=kind, shape=s) for d, N, s in ((1, 2, 'vec'), (2, 2, 'row'), (1, 3, 'row')) for kind in ('model', 'sub')])
def identity(ctx, d, N, kind, shape):
    """Functions that return their argument: nothing is shared and nothing given is modified."""
    src = ctx.source()
    wn, Q, wm = noise(ctx, 'Q', d, False)
    vn, R, vm = noise(ctx, 'R', d, False)
    sysm = build(ctx, kind, d, d, lambda x, t: x, lambda x: x, wn, vn, gaussian(ctx.vec('m', d), ctx.spd('P', d)), ctx.const(1))
    xz = ctx.vec('x', d)
    if shape == 'row':
        xz = xz.reshape(1, d)
    c0, = snap(xz)
    data = sysm.simulate(N, x_zero=xz)
    ctx.eq('initial state unchanged', xz, c0, tol=0)
    flat = [a for p in data for a in p]
    copies = snap(*flat)
    for i in range(len(flat)):
        flat[i] += 1
        for j in range(len(flat)):
            ctx.eq('value %d after a change of %d' % (j, i), flat[j], copies[j] + (1 if j <= i else 0))
    ctx.eq('initial state still unchanged', xz, c0, tol=0)

    def draw():
        xs, ys = steps(sysm.simulate(N, x_zero=xz), N)
        prev = [np.ravel(c0)] + xs
        parts = []
        for i in range(N):
            parts += [xs[i] - prev[i], ys[i] - xs[i]]
        return np.concatenate(parts).reshape(1, -1)
    law(ctx, 'noise', draw, np.concatenate([wm, vm] * N), block([Q, R] * N), src, None)


@scenario('C21', [dict(d=d, size=s) for d in (1, 2) for s in (None, 1, 3)], [dict(d=3, size=2)])
def gaussian_noise(ctx, d, size):
    src = ctx.source()
    for mean in (False, True):
        wn, Q, mu = noise(ctx, 'Q%d' % mean, d, mean)
        cQ, cm = snap(Q, mu)
        X = wn.sample() if size is None else wn.sample(size)
        ctx.true('shape', np.shape(X) == ((d,) if size is None else (size, d)), note='shape %s' % (np.shape(X),))
        law(ctx, 'draw', lambda: np.reshape(wn.sample() if size is None else wn.sample(size), (-1, d)), cm, cQ, src, d)
        ctx.eq('cov attribute', wn.cov, cQ, tol=0)
        ctx.eq('mean attribute', wn.mean, cm, tol=0)
        ctx.true('dimension', wn.dimension == d)
        unchanged(ctx, 'parameters', (Q, mu), (cQ, cm))


@scenario('C21')
def default_start(ctx):
    """Time starts at zero and the step is one when nothing is said."""
    from Systems import DynamicSystemModel
    src = ctx.source()
    f, h = ctx.fn('f', 1, 1), ctx.fn('h', 1, 1)
    wn, Q, wm = noise(ctx, 'Q', 1, False)
    vn, R, vm = noise(ctx, 'R', 1, False)
    s = DynamicSystemModel(1, 1, lambda x, t=None, u=None: f(x, t), lambda x, t=None, u=None: h(x), wn, vn, gaussian(ctx.vec('m', 1), ctx.spd('P', 1)))
    xz = ctx.vec('x', 1)

    def draw():
        xs, ys = steps(s.simulate(3, xz), 3)
        prev = [xz] + xs
        return np.concatenate([np.concatenate([xs[i] - f.at(prev[i], i), ys[i] - h.at(xs[i])]) for i in range(3)]).reshape(1, -1)
    law(ctx, 'noise', draw, np.zeros(6) * Q[0, 0], block([Q, R] * 3), src, None)
    ctx.true('noise objects', s.transition_noise is wn and s.system_noise is wn and s.measurement_noise is vn)
    ctx.true('dims', s.system_dim == 1 and s.measurement_dim == 1)
    ctx.eq('measure', np.ravel(s.measure(xz)), h.at(xz), tol=0)


@scenario('C21', [dict(bad=b) for b in ('system', 'measurement', 'none')])
def wrong_dimensions(ctx, bad):
    """A noise model whose dimension is not that of the system is refused."""
    from Systems import DynamicSystemModel
    wn, Q, wm = noise(ctx, 'Q', 3 if bad == 'system' else 2, False)
    vn, R, vm = noise(ctx, 'R', 2 if bad == 'measurement' else 1, False)
    try:
        DynamicSystemModel(2, 1, lambda x, t=None: x, lambda x: x[..., :1], wn, vn, None)
        ctx.true('accepted only when consistent', bad == 'none')
    except AssertionError:
        ctx.true('refused only when inconsistent', bad != 'none')


@scenario('C21', [dict(d=d, pattern=p) for d in (3, 4) for p in PATTERNS] + [dict(d=5, pattern='pairs'), dict(d=6, pattern='diagonal'), dict(d=3, pattern='dense')],
          [dict(d=d, pattern=p) for d in (5, 6) for p in PATTERNS if (d, p) not in ((5, 'pairs'), (6, 'diagonal'))] + [dict(d=4, pattern='dense')])
def structured_noise(ctx, d, pattern):
    """Covariances with zeros and larger dimensions."""
    from Systems import GaussianNoise
    src = ctx.source()
    Q = patterned(ctx, 'Q', d, pattern)
    Q0, = snap(Q)
    wn = GaussianNoise(dimension=d, cov=Q)
    law(ctx, 'draw', lambda: np.reshape(wn.sample(), (1, d)), np.zeros(d) * Q0[0, 0], Q0, src, d)
    law(ctx, 'draws', lambda: wn.sample(size=2), np.zeros(d) * Q0[0, 0], Q0, src, d)
    unchanged(ctx, 'covariance', (Q,), (Q0,))


@scenario('C21', [dict(d=1), dict(d=2)])
def no_noise(ctx, d):
    """Zero noise covariances: the trajectory is the deterministic one."""
    from Systems import DynamicSystemModel, GaussianNoise
    src = ctx.source()
    f, h = ctx.fn('f', d, d), ctx.fn('h', d, 1)
    s = DynamicSystemModel(d, 1, lambda x, t=None, u=None: f(x, t), lambda x, t=None, u=None: h(x), GaussianNoise(d, cov=np.eye(d) * 0),
                           GaussianNoise(1, cov=np.eye(1) * 0), gaussian(ctx.vec('m', d), ctx.spd('P', d)))
    x = ctx.vec('x', d)
    data = s.simulate(3, x)
    for i, (a, b) in enumerate(data):
        x = f.at(x, i)
        ctx.eq('state %d' % i, np.ravel(a), x)
        ctx.eq('observation %d' % i, np.ravel(b), h.at(x))
