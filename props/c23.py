"""C23: the growth model and Lorenz-96 implement the documented equations."""
import importlib
from props import scenario
from props.common import np, snap, unchanged


# ---------------------------------------------------------------- growth model
def ungm():
    from Systems import UniformNonlinearGrowthModel
    return UniformNonlinearGrowthModel()


@scenario('C23', [dict(shape=s) for s in ('vec', 'row', 'batch')])
def growth(ctx, shape):
    s = ungm()
    x = ctx.vec('x', 3 if shape == 'batch' else 1)
    t = ctx.real('t')
    X = x if shape == 'vec' else x.reshape(-1, 1)
    c, = snap(X)
    ctx.eq('transition', s.transition(X, t=t), c / 2 + 25 * c / (1 + c * c) + 8 * ctx.cos(1.2 * t))
    ctx.eq('transition (kw)', s.transition(x=X, t=t), c / 2 + 25 * c / (1 + c * c) + 8 * ctx.cos(1.2 * t))
    ctx.eq('measurement', s.measurement(X), c * c / 20)
    ctx.eq('measurement at t', s.measurement(X, t=t), c * c / 20)
    ctx.eq('measure', s.measure(X), c * c / 20)
    unchanged(ctx, 'state', (X,), (c,))


@scenario('C23')
def growth_derivative(ctx):
    from autograd import jacobian
    s = ungm()
    x, t = ctx.vec('x', 1), ctx.real('t')
    J = jacobian(lambda v: s.transition(v, t=t))(x)
    a = x[0] * x[0]
    ctx.eq('transition', np.reshape(J, (1, 1)), np.array([[ctx.const(1) / 2 + 25 * (1 - a) / (1 + a) ** 2]]))
    ctx.eq('measurement', np.reshape(jacobian(s.measurement)(x), (1, 1)), np.array([[x[0] / 10]]))


@scenario('C23')
def growth_model(ctx):
    s = ungm()
    ctx.eq('Q', s.system_noise.cov, np.array([[1.0]]))
    ctx.eq('R', s.measurement_noise.cov, np.array([[10.0]]))
    ctx.eq('Q mean', s.system_noise.mean, np.array([0.0]))
    ctx.eq('R mean', s.measurement_noise.mean, np.array([0.0]))
    ctx.eq('initial mean', s.init_state.mean, np.array([0.0]))
    ctx.eq('initial cov', s.init_state.cov, np.array([[5.0]]))
    ctx.true('dims', s.system_dim == 1 and s.measurement_dim == 1)
    ctx.true('time step', s.dt == 1)


# ---------------------------------------------------------------- Lorenz-96
def tendency(x, F):
    n = len(x)
    return np.array([(x[(i + 1) % n] - x[(i - 2) % n]) * x[(i - 1) % n] - x[i] + F for i in range(n)])


def rk4(x, dt, F):
    k1 = tendency(x, F)
    k2 = tendency(x + dt / 2 * k1, F)
    k3 = tendency(x + dt / 2 * k2, F)
    k4 = tendency(x + dt * k3, F)
    return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)


def dtendency(x):
    n = len(x)
    J = np.zeros((n, n)) * x[0]
    for i in range(n):
        J[i, (i + 1) % n] += x[(i - 1) % n]
        J[i, (i - 2) % n] -= x[(i - 1) % n]
        J[i, (i - 1) % n] += x[(i + 1) % n] - x[(i - 2) % n]
        J[i, i] -= 1
    return J


def drk4(x, dt, F):
    n = len(x)
    E = np.eye(n) + np.zeros((n, n)) * x[0]
    k1 = tendency(x, F)
    D1 = dtendency(x)
    x2 = x + dt / 2 * k1
    D2 = dtendency(x2) @ (E + dt / 2 * D1)
    k2 = tendency(x2, F)
    x3 = x + dt / 2 * k2
    D3 = dtendency(x3) @ (E + dt / 2 * D2)
    k3 = tendency(x3, F)
    D4 = dtendency(x + dt * k3) @ (E + dt * D3)
    return E + dt / 6 * (D1 + 2 * D2 + 2 * D3 + D4)


class Patched:
    """The initial condition of the model and its file replaced by a recorder."""

    def __init__(self, value):
        self.value, self.calls, self.saved = value, [], []
        self.mod = importlib.import_module('Systems.L96')

    def __enter__(self):
        self.old = (self.mod.generate_L96_initial_condition, np.save)

        def gen(dim=40, F=8):
            self.calls.append((dim, F))
            return np.array(self.value, copy=True)
        self.mod.generate_L96_initial_condition = gen
        np.save = lambda path, a, *x, **k: self.saved.append((path, np.array(a, copy=True)))
        return self

    def __exit__(self, *a):
        self.mod.generate_L96_initial_condition, np.save = self.old


def l96(ctx, n, default=False):
    from Systems import L96
    x0 = ctx.vec('i', n)
    F = ctx.real('F', hint=8)
    dt = ctx.const(0.05) if default else ctx.real('dt', '+', hint=0.05)
    q, r = ctx.real('q', '+'), ctx.real('r', '+')
    with Patched(x0) as p:
        s = L96(Q_sigma=q, R_sigma=r, dim=n, F=F) if default else L96(Q_sigma=q, R_sigma=r, delta_t=dt, dim=n, F=F)
    return s, x0, F, dt, q, r, p


@scenario('C23', [dict(n=3), dict(n=4), dict(n=4, default=True), dict(n=6)], [dict(n=5), dict(n=7)], budget=120)
def lorenz_step(ctx, n, default=False):
    s, x0, F, dt, q, r, p = l96(ctx, n, default)
    x = ctx.vec('x', n)
    c, = snap(x)
    ctx.eq('transition', np.ravel(s.transition(x)), rk4(c, dt, F))
    ctx.eq('measurement', np.ravel(s.measurement(x)), c * c)
    ctx.eq('measure', np.ravel(s.measure(x)), c * c)
    unchanged(ctx, 'state', (x,), (c,))


@scenario('C23', [dict(n=8, free=2), dict(n=12, free=2), dict(n=40, free=1)], [dict(n=40, free=2), dict(n=60, free=1)], budget=100)
def lorenz_large(ctx, n, free):
    """More components, most of them at fixed values."""
    s, x0, F, dt, q, r, p = l96(ctx, n)
    x = np.array([ctx.real('x%d' % i) if i in (n - 1, 0)[:free] else ctx.const((i * 7 % 5 - 2) / 2) for i in range(n)])
    F1 = F
    ctx.eq('transition', np.ravel(s.transition(x, t=ctx.real('t'))), rk4(x, dt, F1))
    ctx.eq('measurement', np.ravel(s.measurement(x, t=ctx.real('t'))), x * x)


@scenario('C23', [dict(n=4, free=2), dict(n=5, free=1)], [dict(n=4, free=4), dict(n=7, free=2)], budget=100)
def lorenz_derivative(ctx, n, free):
    from autograd import jacobian
    s, x0, F, dt, q, r, p = l96(ctx, n)
    x = np.array([ctx.real('x%d' % i) if i < free else ctx.const((i * 7 % 5 - 2) / 2) for i in range(n)])
    ctx.eq('transition', np.reshape(jacobian(s.transition)(x), (n, n)), drk4(x, dt, F))
    ctx.eq('measurement', np.reshape(jacobian(s.measurement)(x), (n, n)), np.diag(2 * x))


@scenario('C23', [dict(n=1), dict(n=4), dict(n=10)])
def lorenz_model(ctx, n):
    s, x0, F, dt, q, r, p = l96(ctx, n)
    one = np.eye(n)
    ctx.eq('Q', s.system_noise.cov, q * one)
    ctx.eq('R', s.measurement_noise.cov, r * one)
    ctx.eq('noise means', np.concatenate([s.system_noise.mean, s.measurement_noise.mean]), np.zeros(2 * n))
    ctx.eq('initial mean', s.init_state.mean, x0)
    ctx.eq('initial cov', s.init_state.cov, one)
    ctx.true('dims', s.system_dim == n and s.measurement_dim == n)
    ctx.true('initial condition for this dimension', len(p.calls) == 1 and p.calls[0][0] == n)
    if len(p.calls) == 1:
        ctx.eq('initial condition for this forcing', p.calls[0][1], F)
    for path, a in p.saved:
        ctx.eq('saved initial condition', a, x0)


@scenario('C23')
def lorenz_defaults(ctx):
    from Systems import L96
    x0 = ctx.vec('i', 40)
    with Patched(x0) as p:
        s = L96()
    ctx.eq('Q', s.system_noise.cov, 0.1 * np.eye(40))
    ctx.eq('R', s.measurement_noise.cov, 1.0 * np.eye(40))
    ctx.true('dims', s.system_dim == 40 and s.measurement_dim == 40)
    ctx.true('forcing', [tuple(map(float, c)) for c in p.calls] == [(40.0, 8.0)])
    ctx.eq('initial mean', s.init_state.mean, x0)
    x = np.array([ctx.real('x%d' % i) if i == 3 else ctx.const((i * 7 % 5 - 2) / 2) for i in range(40)])
    ctx.eq('transition', np.ravel(s.transition(x)), rk4(x, 0.05, 8))


@scenario('C23', [dict(case=c) for c in ('loaded', 'missing', 'wrong')])
def lorenz_file(ctx, case):
    """The initial condition of a file is used, a missing file is replaced by a new one, a wrong dimension is refused."""
    import os
    import tempfile
    from Systems import L96
    n = 5
    a = np.arange(n if case != 'wrong' else n + 1) / 4.0
    a = np.array([float(v) for v in a])
    x0, F = ctx.vec('i', n), ctx.real('F', hint=8)
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'init.npy')
        if case != 'missing':
            with open(path, 'wb') as fh:
                np.save(fh, a)
        try:
            with Patched(x0) as p:
                s = L96(dim=n, F=F, init_cond_path=path)
        except AssertionError:
            ctx.true('refused only when wrong', case == 'wrong')
            return
        ctx.true('refused when wrong', case != 'wrong')
        if case == 'loaded':
            ctx.eq('loaded', s.init_state.mean, a)
            ctx.true('not generated', not p.calls)
        else:
            ctx.eq('generated', s.init_state.mean, x0)
            ctx.true('generated once', len(p.calls) == 1 and p.calls[0][0] == n)
            ctx.eq('with this forcing', p.calls[0][1], F)


@scenario('C23', [dict(n=2)], [dict(n=4)], budget=120)
def lorenz_initial(ctx, n):
    """A vector: repeated steps with the requested forcing from the slightly perturbed equilibrium."""
    mod = importlib.import_module('Systems.L96')
    F = ctx.real('F', hint=6)
    g = ctx.fn('step', n, n)
    old = mod.f

    def step(x, t=None, u=None, delta_t=0.05, F=8):
        return g(x, t=F, u=delta_t)
    mod.f = step
    try:
        x = mod.generate_L96_initial_condition(n, F)
    finally:
        mod.f = old
    ctx.true('a vector of that dimension', np.shape(x) == (n,), note='shape %s' % (np.shape(x),))
    if not g.calls:
        return                   # the step function is not looked up in the module any more
    ctx.true('steps taken', len(g.calls) > 100)
    e = np.ones(n) * F
    e[0] = e[0] + 0.01
    ctx.eq('start', np.ravel(g.calls[0][0]), e)
    prev = None
    for i, (a, t, u) in enumerate(g.calls):
        if i:
            ctx.eq('step %d' % i, np.ravel(a), prev)
        ctx.eq('forcing', t, F)
        ctx.eq('time step', u, 0.05)
        prev = g.at(a, t, u)
    ctx.eq('result', np.ravel(x), prev)
