"""C33: the baseline and dimension experiments record the scores of each seed's own run."""
import contextlib
import inspect
import io
import os
import runpy
import sqlite3

from props import scenario
from props.common import np, gaussian
from props.store import Store
from props.c25 import metrics
from props import c30

SEEDS = [101, 201, 301, 401, 501, 601, 701, 801, 901, 1001]
SCRIPTS = dict(
    ungm=dict(file='IEKS_Sweep_UNGM.py', system='UniformNonlinearGrowthModel', d=1, table='UNGM_EXP', cols=('Seed',), iters=50, dims=[1]),
    turn=dict(file='IEKS_Sweep_BearingsOnly.py', system='BearingsOnlyTrackingTurn', d=5, table='BOTT_EXP', cols=('Quantity', 'Seed'), iters=50, dims=[5]),
    l96=dict(file='IEKS_Sweep_L96.py', system='L96', d=1, table='L96_EXP', cols=('dim', 'Seed'), iters=10, dims=[5, 10, 20]))


class Stop(Exception):
    pass


@contextlib.contextmanager
def replaced(*what):
    saved = [(o, n, getattr(o, n)) for o, n, v in what]
    for o, n, v in what:
        setattr(o, n, v)
    try:
        yield
    finally:
        for o, n, v in reversed(saved):
            setattr(o, n, v)


def stand_in(d, T, log):
    """A linear model of dimension d in place of the model of the script; its trajectories have T steps."""
    from Systems import DynamicSystemModel, GaussianNoise

    class Model(DynamicSystemModel):
        def __init__(self, *a, **k):
            self.given = k.get('dim', a[0] if a else None)
            super().__init__(system_dim=d, measurement_dim=1, transition=lambda x, t=None, u=None, **k: 0.75 * x,
                             measurement=lambda x, t=None, u=None, **k: 1.25 * x[..., :1], system_noise=GaussianNoise(dimension=d, cov=0.5 * np.eye(d)),
                             measurement_noise=GaussianNoise(dimension=1, cov=0.75 * np.eye(1)), init_distribution=gaussian((0.5 + (self.given or 0) / 16) * np.ones(d), 1.5 * np.eye(d)))

        def simulate(self, N, *a, **k):
            log.append((self.given, N))
            return super().simulate(T, *a, **k)
    return Model


def smoothed(ctx, d, y, iters, dim, i):
    """What the smoother stands for: a mean that depends on the observation, the passes and the dimension; arbitrary variances."""
    L = np.zeros((d, d)) * ctx.const(0)
    for j in range(d):
        L[j, j] = ctx.real('l%d' % j, '+', hint=1 + 0.25 * j)
        for k in range(j):
            L[j, k] = 0.25 * ((j + k) % 3)
    m = np.array([ctx.real('a%d' % j, hint=j - 1) for j in range(d)]) * (1 + i) + y[0] * (np.arange(d) + 1) / 4 + iters / 64 + dim / 8
    return m, L @ L.T


def execute(ctx, st, which, T, log, crash=None):
    import Systems
    import Filters.KalmanFilter as KF
    s = SCRIPTS[which]
    real = KF.IEKS
    model = stand_in(s['d'], T, log)

    class Smoother:
        def __init__(self, *a, **k):
            b = inspect.signature(real.__init__).bind(self, *a, **k).arguments
            self.model, self.dim = b['system_model'], b['sys_dim']

        def __call__(self, *a, **k):
            b = inspect.signature(real.__call__).bind(self, *a, **k).arguments
            log.append(('pass', self.dim))
            if crash is not None and sum(1 for x in log if x[0] == 'pass') > crash:
                raise Stop()
            return [gaussian(*smoothed(ctx, s['d'], np.ravel(y), b['num_iter'], self.dim, i)) for i, y in enumerate(b['measurements'])]
    script(s['file'], st, [(Systems, s['system'], model), (KF, 'IEKS', Smoother)])


def script(name, st, what):
    from sym.concrete import REPO
    state = os.getcwd()
    with replaced((sqlite3, 'connect', lambda *a, **k: st.connect()), *what), contextlib.redirect_stdout(io.StringIO()):
        try:
            runpy.run_path(os.path.join(REPO, 'Experiments', name), run_name='__main__')
        except Stop:
            pass
        finally:
            os.chdir(state)


def trajectory(model, seed, dim):
    np.random.seed(seed)
    return list(model(dim).simulate(1))


def wanted(ctx, which, T, seed, dim):
    """{quantity: (RMSE, NLL)} of one seed."""
    s = SCRIPTS[which]
    data = trajectory(stand_in(s['d'], T, []), seed, dim if which == 'l96' else None)
    raw = [smoothed(ctx, s['d'], np.ravel(y), s['iters'], dim, i) for i, (x, y) in enumerate(data)]
    xs = [x for x, y in data]
    if which == 'turn':
        return {q: metrics(ctx, *c30.part(raw, xs, q)) for q in c30.ORDER}
    return {None: metrics(ctx, raw, xs)}


def keys(which):
    return [(dim, seed) for dim in SCRIPTS[which]['dims'] for seed in SEEDS]


def label(which, dim, seed, q):
    return {'ungm': (seed,), 'turn': (q, seed), 'l96': (dim, seed)}[which]


def rows(conn, which):
    s = SCRIPTS[which]
    return conn.execute('SELECT %s, Iter, RMSE, NLL FROM %s ORDER BY rowid' % (', '.join(s['cols']), s['table'])).fetchall()


def verify(ctx, which, T, got, configs, kept=()):
    s = SCRIPTS[which]
    n = 0
    for dim, seed in configs:
        for q, (r, nl) in wanted(ctx, which, T, seed, dim).items():
            key = label(which, dim, seed, q)
            mine = [x for x in got if x[:-3] == key and x[-3] == s['iters']]
            ctx.true('%s: one row' % (key,), len(mine) == 1, note='%d rows' % len(mine))
            n += 1
            if len(mine) == 1 and key not in kept:
                ctx.eq('%s: RMSE' % (key,), mine[0][-2], r)
                ctx.eq('%s: NLL' % (key,), mine[0][-1], nl)
    return n


@scenario('C33', [dict(which='ungm', T=2), dict(which='ungm', T=3), dict(which='l96', T=2), dict(which='turn', T=2), dict(which='turn', T=3)],
          [dict(which='ungm', T=6), dict(which='l96', T=4)])
def baseline(ctx, which, T):
    """The script on an empty database: one committed row per seed (and dimension or quantity), and again: nothing changes."""
    ctx.source()
    with Store(ctx) as st:
        execute(ctx, st, which, T, [])
        other = st.connect()
        got = rows(other, which)
        n = verify(ctx, which, T, got, keys(which))
        ctx.true('rows', len(got) == n, note='%d rows instead of %d' % (len(got), n))
        execute(ctx, st, which, T, [])
        again = rows(other, which)
        ctx.true('the same rows', len(again) == len(got) and all(a[:-2] == b[:-2] for a, b in zip(again, got)))
        for i, (a, b) in enumerate(zip(again, got)):
            ctx.eq('scores of row %d' % i, np.array(a[-2:]), np.array(b[-2:]), tol=0)


@scenario('C33', [dict(which=w, T=2, at=at) for w, at in (('ungm', 1), ('ungm', 7), ('ungm', 10), ('l96', 1), ('l96', 13), ('turn', 1), ('turn', 4))])
def interrupted(ctx, which, T, at):
    """The script dies at one of its seeds: the results of the seeds before it are stored; started again, it completes them."""
    ctx.source()
    with Store(ctx) as st:
        execute(ctx, st, which, T, [], crash=at)
        other = st.connect()
        got = rows(other, which)
        n = verify(ctx, which, T, got, keys(which)[:at])
        ctx.true('rows', len(got) == n, note='%d rows instead of %d' % (len(got), n))
        for c in st.open[:-1]:
            c.close()
        execute(ctx, st, which, T, [])
        got = rows(other, which)
        n = verify(ctx, which, T, got, keys(which))
        ctx.true('all rows', len(got) == n, note='%d rows instead of %d' % (len(got), n))


@scenario('C33', [dict(which=w, at=at) for w, at in (('ungm', 0), ('ungm', 9), ('l96', 15), ('turn', 5))])
def kept(ctx, which, at):
    """A stored result, and one of another number of passes, stay."""
    ctx.source()
    s = SCRIPTS[which]
    r, n = ctx.real('r0'), ctx.real('n0')
    dim, seed = keys(which)[at]
    with Store(ctx) as st:
        execute(ctx, st, which, 2, [], crash=0)
        conn, other = st.connect(), st.connect()
        ins = 'INSERT INTO %s (%s, Iter, RMSE, NLL) VALUES (%s)' % (s['table'], ', '.join(s['cols']), ', '.join('?' * (len(s['cols']) + 3)))
        mine = [label(which, dim, seed, q) for q in (c30.ORDER if which == 'turn' else [None])]
        for k in mine:
            for it in (s['iters'], 3):
                conn.execute(ins, k + (it, r, n))
        conn.commit()
        execute(ctx, st, which, 2, [])
        got = rows(other, which)
        m = verify(ctx, which, 2, got, keys(which), kept=mine)
        ctx.true('rows', len(got) == m + len(mine), note='%d rows instead of %d' % (len(got), m + len(mine)))
        for k in mine:
            for it in (s['iters'], 3):
                row = [x for x in got if x[:-3] == k and x[-3] == it]
                ctx.true('%s: stored' % (k + (it,),), len(row) == 1)
                for x in row:
                    ctx.eq('%s: stored scores' % (k + (it,),), np.array(x[-2:]), np.array([r, n]), tol=0)


# ------------------------------------------------ the dimension experiment
DIMS = [5, 10, 20, 40, 100, 200]
SETTINGS = [(1.0, 1.0, 10), (0.8, 1.0, 10), (0.1, 1.0, 10)]


class Chain:
    """In place of the factor graph: one node whose marginal depends on the sweeps made, the observation and the configuration."""

    def __init__(self, ctx, N, dim):
        self.ctx, self.dim, self.n = ctx, dim, dict(fwd=0, meas=0, back=0)
        self.est = self.y = self.stop = None
        self._set()

    def _set(self):
        c, n = self.ctx, self.n['back']
        self.marginal = gaussian(*marginal(c, self.dim, self.est, self.y, n)) if self.est is not None and self.y is not None else gaussian(np.ones(1), np.eye(1))

    def fwd_update(self):
        if self.stop is not None and self.n['back'] == self.stop:
            raise Stop()
        self.n['fwd'] += 1

    def meas_update(self):
        self.n['meas'] += 1

    def back_update(self):
        self.n['back'] += 1
        if not self.n['fwd'] == self.n['meas'] == self.n['back']:
            raise AssertionError('updates of a sweep: %s' % self.n)
        self._set()


def marginal(ctx, dim, est, y, n):
    rule, power, damping, noise = est
    m = ctx.real('a') * n + np.ravel(y)[0] * power / 2 + dim / 8 + damping / 4 + rule / 16 + noise
    return np.array([m]), ctx.array(np.eye(1)) * ctx.real('p', '+', hint=1.25)


def facts(est, dim):
    """The estimator of a configuration: the rule, its dimension, power, damping and noise."""
    from MomentMatching import MonteCarloTransform
    ok = all(isinstance(t, MonteCarloTransform) for t in (est.trans_map, est.meas_map))
    return (1 if ok else 7, est.power, est.damping, np.asarray(est.transition_noise)[0, 0] + 2 * np.asarray(est.measurement_noise)[0, 0])


@scenario('C33', [dict(stop=None), dict(stop=(0, 3)), dict(stop=(4, 0)), dict(stop=(100, 9))])
def dimensions(ctx, stop):
    """The EP experiment over dimensions: a committed row after every sweep with the scores at that point; stop: (configuration, sweep) at which it dies."""
    ctx.source()
    import Systems
    import ExpectationPropagation.Nodes as Nodes
    log, made = [], []
    real = {n: inspect.signature(getattr(Nodes, n)) for n in ('build_nodes', 'node_estimator', 'node_system')}

    def bound(name, a, k):
        b = real[name].bind(*a, **k)
        b.apply_defaults()
        return b.arguments

    def build_nodes(*a, **k):
        b = bound('build_nodes', a, k)
        c = Chain(ctx, b['N'], b['dim'])
        if stop is not None and len(made) == stop[0]:
            c.stop = stop[1]
        made.append(c)
        return [c]

    def node_estimator(*a, **k):
        b = bound('node_estimator', a, k)
        for c in b['nodes']:
            c.est = facts(b['estimator'], c.dim)
            c._set()
        return list(b['nodes'])

    def node_system(*a, **k):
        b = bound('node_system', a, k)
        for c, y in zip(b['nodes'], b['measurements']):
            c.y = y
            c._set()
        return list(b['nodes'])
    model = stand_in(1, 1, log)
    with Store(ctx) as st:
        script('EP_Sweep_L96.py', st, [(Systems, 'L96', model), (Nodes, 'build_nodes', build_nodes), (Nodes, 'node_estimator', node_estimator), (Nodes, 'node_system', node_system)])
        got = st.connect().execute('SELECT Transform, Seed, dim, Iter, Power, Damping, RMSE, NLL FROM L96_EXP ORDER BY rowid').fetchall()
        by = {}
        for g in got:
            by.setdefault(g[:6], []).append(g)
        ctx.true('chains', [c.dim for c in made] == [d for d in DIMS for s in SEEDS for p in SETTINGS][:len(made)])
        count = n = 0
        for dim in DIMS:
            for seed in SEEDS:
                x, y = trajectory(model, seed, dim)[0]
                for power, damping, sweeps in SETTINGS:
                    for it in range(sweeps):
                        if stop is not None and (count, it) >= tuple(stop):
                            break
                        n += 1
                        key = ('MCT', seed, dim, it, power, damping)
                        mine = by.get(key, [])
                        ctx.true('%s: one row' % (key,), len(mine) == 1, note='%d rows' % len(mine))
                        if len(mine) == 1:
                            r, nl = metrics(ctx, [marginal(ctx, dim, (1, power, damping, 2.0), y, it + 1)], [x])
                            ctx.eq('%s: RMSE' % (key,), mine[0][-2], r)
                            ctx.eq('%s: NLL' % (key,), mine[0][-1], nl)
                    count += 1
        ctx.true('rows', len(got) == n, note='%d rows instead of %d' % (len(got), n))
