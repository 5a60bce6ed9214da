"""C29: experiment sweeps record, once per configuration, what the library computes for that configuration."""
import contextlib
import importlib
import inspect
import io
import itertools
import sqlite3

from props import scenario
from props.common import np, gaussian
from props.store import Store
from props.c28 import table, same_rows, rows_of
from props import c30
from props.c25 import metrics
from props.c33 import replaced
from props.c23 import Patched


def module(which):
    return importlib.import_module('Experiments.EP_FullSweep' if which == 'full' else 'Experiments.EP_Sweep_BearingsOnly')


def transforms(name, d):
    from MomentMatching import UnscentedTransform, TaylorTransform
    if name == 'UT':
        return UnscentedTransform(dim=d, alpha=1, beta=2, kappa=3), UnscentedTransform(dim=d, alpha=1, beta=2, kappa=2)
    return TaylorTransform(dim=d), TaylorTransform(dim=d)


def system(ctx, which, T):
    """Scalar: quadratic transition for a single step (the rules differ), linear otherwise. Five dimensions for the tracking sweep."""
    from Systems import DynamicSystemModel, GaussianNoise
    d = 1 if which == 'full' else 5
    rows = np.atleast_2d if d == 5 else lambda x: x       # the tracking model returns one-row batches

    def f(x, t=None, u=None, **k):
        x = rows(x)
        return 0.5 * x + 0.25 * x * x if T == 1 else 0.75 * x

    def h(x, t=None, u=None, **k):
        return 1.25 * rows(x)[..., :1]
    return DynamicSystemModel(system_dim=d, measurement_dim=1, transition=f, measurement=h, system_noise=GaussianNoise(dimension=d, cov=0.5 * np.eye(d)),
                              measurement_noise=GaussianNoise(dimension=1, cov=0.75 * np.eye(1)), init_distribution=gaussian(0.5 * np.ones(d), 1.5 * np.eye(d)))


def prepare(ctx, which, st, T, iters):
    mod = module(which)
    from Utils.Database import create_dynamics_table, create_experiment_table
    conn, other = st.connect(), st.connect()
    db = conn.cursor()
    create_dynamics_table(db, name='DYN')
    (create_experiment_table if which == 'full' else mod.create_experiment_table)(db, table_name='EXP')
    conn.commit()
    s = system(ctx, which, T)
    from Experiments.EP_FullSweep import Config
    cfg = Config(con=conn, system=s, timesteps=T, sys_dim=1 if which == 'full' else 5, num_iter=iters, dyn_table_name='DYN', exp_table_name='EXP')
    return mod, cfg, conn, other, s


def direct(ctx, src, s, seed, tr, power, damping, T, iters):
    """The same configuration with the library itself: [(marginal moments, ...) per iteration], trajectory."""
    from MomentMatching.Estimator import Estimator
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    from ExpectationPropagation.Iterations import ep_fwd_back_updates
    np.random.seed(seed)
    data = list(s.simulate(T))
    xs, ys = zip(*data)
    d = s.init_state.dim if hasattr(s, 'init_state') and hasattr(s.init_state, 'dim') else np.size(xs[0])
    tm, mm = transforms(tr, d)
    est = Estimator(trans_map=tm, meas_map=mm, trans_noise=s.transition_noise.cov, meas_noise=s.measurement_noise.cov, power=power, damping=damping)
    nodes = node_system(nodes=node_estimator(nodes=build_nodes(N=T, dim=d), estimator=est), system_model=s, measurements=ys)
    out = []
    for i in range(iters):
        ep_fwd_back_updates(nodes)
        out.append([(np.array(n.marginal.mean), np.array(n.marginal.cov)) for n in nodes])
    return out, data


def stored(conn, which):
    cols = 'Transform, Seed, Power, Damping, Iter, RMSE, NLL' if which == 'full' else 'Transform, Seed, Power, Damping, Iter, Quantity, RMSE, NLL'
    return conn.execute('SELECT %s FROM EXP ORDER BY rowid' % cols).fetchall()


def scores(ctx, which, raw, xs):
    if which == 'full':
        return [(None, metrics(ctx, raw, xs))]
    return [(q, metrics(ctx, *c30.part(raw, xs, q))) for q in c30.ORDER]


def compare_config(ctx, which, got, res, xs, key, iters, old=()):
    """The rows of one configuration; old: iterations that were stored before."""
    mine = [r for r in got if r[:4] == key]
    per = 1 if which == 'full' else 3
    ctx.true('%s: rows' % (key,), len(mine) == iters * per, note='%d rows instead of %d' % (len(mine), iters * per))
    for it in range(1, iters + 1):
        if it in old:
            continue
        for q, (r, n) in scores(ctx, which, res[it - 1], xs):
            row = [x for x in mine if x[4] == it and (q is None or x[5] == q)]
            ctx.true('%s: one row for iteration %d %s' % (key, it, q or ''), len(row) == 1)
            if len(row) == 1:
                ctx.eq('%s iteration %d %s: RMSE' % (key, it, q or ''), row[0][-2], r)
                ctx.eq('%s iteration %d %s: NLL' % (key, it, q or ''), row[0][-1], n)


def put(conn, which, key, it, r, n):
    """A result stored by an earlier run."""
    tr, seed, power, damping = key
    if which == 'full':
        conn.execute('INSERT INTO EXP (Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance) VALUES (?,?,?,?,?,?,?,?,?)',
                     (tr, seed, it, power, damping, r, n, [], []))
    else:
        for q in c30.ORDER:
            conn.execute('INSERT INTO EXP (Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL) VALUES (?,?,?,?,?,?,?,?)',
                         (tr, q, seed, it, power, damping, r, n))
    conn.commit()


GRID = [dict(which='full', T=1, iters=11, seeds=[7], tr=['TT'], powers=[0.5], damps=[0.75]),
        dict(which='full', T=4, iters=2, seeds=[9], tr=['TT'], powers=[0.5, 1.0], damps=[0.8]),
        dict(which='full', T=1, iters=2, seeds=[101], tr=['TT', 'UT'], powers=[1.0], damps=[1.0]),
        dict(which='full', T=1, iters=1, seeds=[5, 3], tr=['UT'], powers=[0.5], damps=[1.0, 0.8]),
        dict(which='full', T=2, iters=2, seeds=[7], tr=['UT'], powers=[0.1, 1.0], damps=[0.75]),
        dict(which='full', T=1, iters=3, seeds=[7, 8], tr=['TT'], powers=[0.25, 1.0], damps=[1.0]),
        dict(which='full', T=1, iters=2, seeds=[0, 1], tr=['TT'], powers=[0.5, 0.53, 1 / 3, 0.334], damps=[1.0, 0.999]),
        dict(which='full', T=1, iters=1, seeds=[3, 4], tr=['TT'], powers=[0.5, 1.0], damps=[1.0], integers='int64'),
        dict(which='turn', T=1, iters=1, seeds=[0, 6], tr=['TT'], powers=[1.0], damps=[1.0], integers='int32'),
        dict(which='turn', T=1, iters=1, seeds=[0], tr=['TT'], powers=[0.5, 0.501], damps=[0.8, 0.82]),
        dict(which='turn', T=1, iters=1, seeds=[101], tr=['TT'], powers=[1.0], damps=[1.0]),
        dict(which='turn', T=1, iters=2, seeds=[3], tr=['TT'], powers=[0.5], damps=[0.8]),
        dict(which='turn', T=1, iters=1, seeds=[3, 2], tr=['UT'], powers=[0.5], damps=[0.8])]


@scenario('C29', GRID, [dict(which='full', T=3, iters=3, seeds=[1, 2], tr=['TT', 'UT'], powers=[0.3, 1.0], damps=[0.5, 1.0]),
                        dict(which='turn', T=2, iters=2, seeds=[1], tr=['TT'], powers=[0.5, 1.0], damps=[1.0])])
def fresh(ctx, which, T, iters, seeds, tr, powers, damps, integers=None):
    """An empty table: every configuration is computed on the trajectory of its seed; trajectories are stored."""
    src = ctx.source()
    with Store(ctx) as st:
        mod, cfg, conn, other, s = prepare(ctx, which, st, T, iters)
        mod.full_sweep(cfg, np.array(seeds, dtype=integers) if integers else seeds, tr, np.array(powers) if integers else powers, damps)
        conn.commit()
        got = stored(other, which)
        n = len(seeds) * len(tr) * len(powers) * len(damps) * iters * (1 if which == 'full' else 3)
        ctx.true('rows', len(got) == n, note='%d rows instead of %d' % (len(got), n))
        want = []
        for seed in seeds:
            for t, p, q in itertools.product(tr, powers, damps):
                res, data = direct(ctx, src, s, seed, t, p, q, T, iters)
                compare_config(ctx, which, got, res, [x for x, y in data], (t, seed, p, q), iters)
            want += rows_of(data, seed)
        same_rows(ctx, 'trajectories', table(other, 'DYN'), want)


@scenario('C29', [dict(which=w, iters=i, have=h, override=o) for w, i, h, o in
           (('full', 2, [2], False), ('full', 2, [1], False), ('full', 2, [1, 2], False), ('full', 2, [1, 2], True), ('full', 1, [1, 50], True), ('full', 1, [50], False),
            ('full', 3, [1], True), ('turn', 1, [1], False), ('turn', 1, [1], True), ('turn', 2, [1], False), ('turn', 1, [50], False),
            ('full', 11, [1, 2], False), ('full', 10, [10], False))],
          [dict(which='full', iters=4, have=[1, 2, 3], override=False), dict(which='turn', iters=3, have=[1, 3], override=True)])
def resumed(ctx, which, iters, have, override):
    """One of two configurations has results already (of the given iterations), with arbitrary values; another seed's results are there as well."""
    src = ctx.source()
    done, open_, foreign = ('TT', 4, 0.5, 1.0), ('TT', 4, 1.0, 1.0), ('TT', 9, 0.5, 1.0)
    r0, n0, r1, n1 = ctx.real('r0'), ctx.real('n0'), ctx.real('r1'), ctx.real('n1')
    with Store(ctx) as st:
        mod, cfg, conn, other, s = prepare(ctx, which, st, 1, iters)
        for it in have:
            put(conn, which, done, it, r0, n0)
        put(conn, which, foreign, iters, r1, n1)
        mod.full_sweep(cfg, [4], ['TT'], [0.5, 1.0], [1.0], **(dict(override=True) if override else {}))
        conn.commit()
        got = stored(other, which)
        per = 1 if which == 'full' else 3
        f = [r for r in got if r[:4] == foreign]
        ctx.true('results of another seed stay', len(f) == per and all(r[4] == iters for r in f))
        for r in f:
            ctx.eq('results of another seed', np.array([r[-2], r[-1]]), np.array([r1, n1]), tol=0)
        res, data = direct(ctx, src, s, 4, 'TT', 1.0, 1.0, 1, iters)
        compare_config(ctx, which, got, res, [x for x, y in data], open_, iters)
        mine = [r for r in got if r[:4] == done]
        if override:
            res, data = direct(ctx, src, s, 4, 'TT', 0.5, 1.0, 1, iters)
            compare_config(ctx, which, got, res, [x for x, y in data], done, iters)
            return
        for it in have:
            rows = [r for r in mine if r[4] == it]
            ctx.true('stored iteration %d stays' % it, len(rows) == per)
            for r in rows:
                ctx.eq('stored iteration %d' % it, np.array([r[-2], r[-1]]), np.array([r0, n0]), tol=0)
        if iters in have:
            ctx.true('nothing is added', len(mine) == per * len(have), note='%d rows' % len(mine))
        else:
            res, data = direct(ctx, src, s, 4, 'TT', 0.5, 1.0, 1, iters)
            compare_config(ctx, which, [r for r in got if r[4] <= iters], res, [x for x, y in data], done, iters, old=have)


@scenario('C29', [dict(which=w, differs=k) for w in ('full', 'turn') for k in ('power', 'damping', 'seed', 'transform', 'iterations')], [])
def close_by(ctx, which, differs):
    """Results of configurations that differ in one setting, by little: they stay, and do not count for this one."""
    src = ctx.source()
    mine = dict(transform='TT', seed=4, power=0.5, damping=0.8)
    others = [dict(mine, **{differs: v}) for v in dict(power=(0.501, 0.49, 0.05), damping=(0.801, 0.79, 0.08), seed=(40, 0, 14), transform=('UT', 'T'), iterations=())[differs]]
    key = lambda c: (c['transform'], c['seed'], c['power'], c['damping'])
    r0, n0 = ctx.real('r0'), ctx.real('n0')
    with Store(ctx) as st:
        mod, cfg, conn, other, s = prepare(ctx, which, st, 1, 2)
        have = [1, 20, 12] if differs == 'iterations' else [1, 2]
        for c in others or [mine]:
            for it in have:
                put(conn, which, key(c), it, r0, n0)
        for override in (False, True):
            mod.full_sweep(cfg, [4], ['TT'], [0.5], [0.8], **(dict(override=True) if override else {}))
            conn.commit()
            got = stored(other, which)
            for c in others:
                rows = [r for r in got if r[:4] == key(c)]
                ctx.true('rows of %s' % (key(c),), len(rows) == 2 * (1 if which == 'full' else 3), note='%d rows' % len(rows))
                for r in rows:
                    ctx.eq('row of %s' % (key(c),), np.array(r[-2:]), np.array([r0, n0]), tol=0)
            res, data = direct(ctx, src, s, 4, 'TT', 0.5, 0.8, 1, 2)
            compare_config(ctx, which, [r for r in got if r[4] <= 2], res, [x for x, y in data], key(mine), 2, old=[1] if not others and not override else [])


@scenario('C29', [dict(which='full'), dict(which='turn')])
def repeated(ctx, which):
    """The same sweep again computes nothing and changes nothing."""
    src = ctx.source()
    with Store(ctx) as st:
        mod, cfg, conn, other, s = prepare(ctx, which, st, 1, 2)
        mod.full_sweep(cfg, [6], ['TT'], [0.5], [1.0, 0.8])
        conn.commit()
        a, t = stored(other, which), table(other, 'DYN')
        mod.full_sweep(cfg, [6], ['TT'], [0.5], [1.0, 0.8])
        conn.commit()
        b = stored(other, which)
        ctx.true('rows', len(a) == len(b) == (4 if which == 'full' else 12))
        for i, (x, y) in enumerate(zip(a, b)):
            ctx.true('row %d' % i, x[:-2] == y[:-2])
            ctx.eq('scores of row %d' % i, np.array(x[-2:]), np.array(y[-2:]), tol=0)
        same_rows(ctx, 'trajectory', table(other, 'DYN'), t)


@scenario('C29', [dict(name=n, given=g) for n in ('UT', 'ut', 'TT', 'MCT') for g in (False, True) if n != 'MCT' or g])
def selection(ctx, name, given):
    """A rule name selects that rule, with the given parameters or the documented ones."""
    from Experiments.EP_FullSweep import select_transform
    from MomentMatching import UnscentedTransform, TaylorTransform, MonteCarloTransform
    src = ctx.source()
    f, h = ctx.fn('f', 2, 2), ctx.fn('h', 2, 1)
    m, P = ctx.vec('m', 2), ctx.spd('P', 2)
    kw = {}
    if given and name == 'MCT':
        kw = dict(samples=3)
    elif given:
        kw = {k: ctx.real(k, '+', hint=v) for k, v in dict(alpha1=1.25, alpha2=0.75, beta1=2, beta2=3, kappa1=1, kappa2=2).items()}
    tm, mm = select_transform(id=name, dim=2, **kw)
    if name.upper() == 'UT':
        par = dict(dict(alpha1=1, alpha2=1, beta1=2, beta2=2, kappa1=3, kappa2=2), **kw)
        want = [UnscentedTransform(dim=2, alpha=par['alpha' + i], beta=par['beta' + i], kappa=par['kappa' + i]) for i in '12']
    elif name == 'TT':
        want = [TaylorTransform(dim=2), TaylorTransform(dim=2)]
    else:
        want = [MonteCarloTransform(dim=2, number_of_samples=3) for i in '12']
    for label, a, b, fun in (('transition', tm, want[0], f), ('measurement', mm, want[1], h)):
        src.reset()
        got = a(fun, gaussian(m, P))
        src.reset()
        exp = b(fun, gaussian(m, P))
        for n, x, y in zip(('mean', 'covariance', 'cross-covariance'), got, exp):
            ctx.eq('%s %s' % (label, n), x, y)


@scenario('C29', [dict(name=n) for n in ('UT', 'ut')])
def selections(ctx, name):
    """Selecting again with one parameter changed: every rule has its own parameters."""
    from Experiments.EP_FullSweep import select_transform
    from MomentMatching import UnscentedTransform
    f = ctx.fn('f', 2, 2)
    m, P = ctx.vec('m', 2), ctx.spd('P', 2)
    base = dict(alpha1=1.25, alpha2=0.75, beta1=2, beta2=3, kappa1=1, kappa2=2)
    base = {k: ctx.real(k, '+', hint=v) for k, v in base.items()}
    sets = [base] + [dict(base, **{k: ctx.real(k + 'b', '+', hint=0.5)}) for k in base] + [base]
    rules = [select_transform(id=name, dim=2, **kw) for kw in sets]
    rules[1:1], sets[1:1] = [select_transform(id=name, dim=3, **base)], [None]
    for j, (par, pair) in enumerate(zip(sets, rules)):
        for i, t in zip('12', pair if par else ()):
            want = UnscentedTransform(dim=2, alpha=par['alpha' + i], beta=par['beta' + i], kappa=par['kappa' + i])
            for n, x, y in zip(('mean', 'covariance', 'cross-covariance'), t(f, gaussian(m, P)), want(f, gaussian(m, P))):
                ctx.eq('selection %d, rule %s, %s' % (j, i, n), x, y)


# ------------------------------------------------ the command line
MODELS = dict(UNGM=('UniformNonlinearGrowthModel', 1, 100), BOT=('BearingsOnlyTracking', 4, 50), BOTT=('BearingsOnlyTrackingTurn', 5, 50), L96=('L96', 40, 50))
POWERS = [i / 10 for i in range(1, 11)]


@contextlib.contextmanager
def connected(ctx, st, opened):
    """Databases that are opened from here on are the scratch one."""
    real = sqlite3.connect

    def connect(path, *a, **k):
        opened.append((path, k.get('detect_types', a[1] if len(a) > 1 else 0)))
        return st.connect()
    sqlite3.connect = connect
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sqlite3.connect = real


@scenario('C29', [dict(which='full', system=s) for s in MODELS] + [dict(which='turn', system='BOTT')])
def command(ctx, which, system):
    """What the command hands to the sweep, for any number of iterations: the chosen model, its dimension and its own tables."""
    mod = module(which)
    it, override = ctx.real('iters', '+', hint=3), bool(ctx.choose('override', 2))
    seen, opened = [], []
    sig = inspect.signature(mod.full_sweep)

    def sweep(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        seen.append(b.arguments)
    with Store(ctx) as st, connected(ctx, st, opened), replaced((mod, 'full_sweep', sweep)), Patched(np.ones(40)):
        tables = {}
        for name in [system] + ([s for s in MODELS if s != system] if which == 'full' else []):
            del seen[:]
            mod.main.callback(logdir='results.db', seeds=(7, 3), trans_types=('UT', 'TT'), num_iter=it, override=override,
                              **(dict(dynamic_system=name) if which == 'full' else {}))
            ctx.true('%s: one sweep' % name, len(seen) == 1, note='%d sweeps' % len(seen))
            if len(seen) != 1:
                return
            a, (cls, d, T) = seen[0], MODELS[name]
            cfg = a['config']
            ctx.true('%s: model' % name, type(cfg.system).__name__ == cls, note=type(cfg.system).__name__)
            ctx.true('%s: dimension' % name, cfg.sys_dim == d == np.shape(cfg.system.transition_noise.cov)[0], note='%s' % (cfg.sys_dim,))
            ctx.true('%s: steps' % name, cfg.timesteps == T, note='%s' % (cfg.timesteps,))
            ctx.eq('%s: iterations' % name, cfg.num_iter, it, tol=0)
            ctx.true('%s: seeds' % name, tuple(a['seed_range']) == (7, 3))
            ctx.true('%s: transforms' % name, tuple(a['trans_types']) == ('UT', 'TT'))
            ctx.eq('%s: powers' % name, np.array(a['power_range']), np.array(POWERS), tol=1e-12)
            ctx.eq('%s: dampings' % name, np.array(a['damp_range']), np.array([1.0, 0.8]), tol=1e-12)
            ctx.true('%s: override' % name, bool(a['override']) is override)
            tables[name] = (cfg.dyn_table_name, cfg.exp_table_name)
            have = [r[0] for r in cfg.con.execute("SELECT name FROM sqlite_master WHERE type='table'").fetchall()]
            ctx.true('%s: tables exist' % name, all(t in have for t in tables[name]), note='%s' % (have,))
        every = [t for p in tables.values() for t in p]
        ctx.true('tables are not shared', len(set(every)) == len(every), note='%s' % (tables,))
        ctx.true('database', all(p == 'results.db' and t & sqlite3.PARSE_DECLTYPES for p, t in opened) and len(opened) == len(tables), note='%s' % (opened,))


@scenario('C29', [dict(which='full', args='-d UNGM -s 5 -t TT -i 1'), dict(which='full', args='-s 5 -s 4 -t UT -i 1 -d UNGM --no-override', start=.5),
                  dict(which='full', args='--trans-types TT --num-iter 2 --override', start=.5), dict(which='turn', args='-s 8 -t TT -i 1', start=.5)], budget=60)
def command_line(ctx, which, args):
    """The whole command on a model of one step, twice: every configuration is stored once."""
    mod = module(which)
    words = args.split()
    seeds = [int(words[i + 1]) for i, w in enumerate(words) if w == '-s'] or [101]
    tr = [words[i + 1] for i, w in enumerate(words) if w in ('-t', '--trans-types')]
    iters = [int(words[i + 1]) for i, w in enumerate(words) if w in ('-i', '--num-iter')][0]
    src, opened = ctx.source(), []
    s = system(ctx, which, 1)
    real = mod.Config

    def config(*a, **k):
        return real(**dict(dict(zip(real._fields, a), **k), timesteps=1))
    put_in = [(mod, n, lambda *a, **k: s) for n in ('UniformNonlinearGrowthModel', 'BearingsOnlyTrackingTurn') if hasattr(mod, n)]
    with Store(ctx) as st, connected(ctx, st, opened), replaced((mod, 'Config', config), *put_in):
        conn = st.connect()
        tab = 'UNGM_EXP' if which == 'full' else 'BOTT_EXP'
        cols = 'Transform, Seed, Power, Damping, Iter' + (', RMSE, NLL' if which == 'full' else ', Quantity, RMSE, NLL')
        for again in range(2):
            mod.main.main(args=words + ['-l', 'results.db'], prog_name='sweep', standalone_mode=False)
            for c in st.open:
                c.commit()
            got = conn.execute('SELECT %s FROM %s ORDER BY rowid' % (cols, tab)).fetchall()
            n = len(seeds) * len(tr) * 20 * iters * (1 if which == 'full' else 3)
            ctx.true('rows after run %d' % (again + 1), len(got) == n, note='%d rows instead of %d' % (len(got), n))
        for seed in seeds:
            for t in tr:
                for p, q in ((0.1, 1.0), (0.5, 0.8), (1.0, 1.0)):
                    near = [r for r in got if r[0] == t and r[1] == seed and abs(r[2] - p) < 1e-9 and abs(r[3] - q) < 1e-9]
                    if not near:
                        ctx.fail('power %s, damping %s is stored' % (p, q))
                        continue
                    key = near[0][:4]
                    res, data = direct(ctx, src, s, seed, t, key[2], key[3], 1, iters)
                    compare_config(ctx, which, got, res, [x for x, y in data], key, iters)
        ctx.true('database', all(p == 'results.db' for p, t in opened), note='%s' % (opened,))
