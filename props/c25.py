"""C25: the EP driver records one correct row per iteration."""
from props import scenario
from props.common import np, gaussian
from props.store import Store

COLS = 'Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance'


class Node:
    """Takes a given marginal after each sweep and counts its updates."""

    def __init__(self, marginals, start, watch=None):
        self.marginals, self.marginal, self.watch = marginals, start, watch
        self.n = dict(fwd=0, meas=0, back=0)

    def fwd_update(self):
        if self.watch:
            self.watch(self.n['back'])
        self.n['fwd'] += 1

    def meas_update(self):
        self.n['meas'] += 1

    def back_update(self):
        self.n['back'] += 1
        if self.n['back'] <= len(self.marginals):
            self.marginal = self.marginals[self.n['back'] - 1]


def metrics(ctx, marg, xs):
    """Root mean squared error and mean negative log density."""
    se, nl = 0, 0
    for g, x in zip(marg, xs):
        e = np.ravel(x) - g[0]
        d = len(e)
        se = se + e @ e
        nl = nl + (e @ ctx.inv(g[1]) @ e + ctx.log(ctx.det(g[1])) + d * np.log(2 * np.pi)) / 2
    return ctx.sqrt(se / len(xs)), nl / len(xs)


def config(ctx, tag='', iter0=0):
    from Utils.Database import Exp_Data
    p, q = ctx.real(tag + 'power', '+', hint=0.5), ctx.real(tag + 'damping', '+', hint=0.75)
    return Exp_Data(Transform='UT' + tag, Seed=7, Iter=iter0, Power=p, Damping=q, RMSE=0.0, NLL=0.0, Mean=0.0, Variance=0.0, Nodes=[]), p, q


def rows(conn, table, order='rowid'):
    return conn.execute('SELECT %s FROM %s ORDER BY %s' % (COLS, table, order)).fetchall()


def marginals(ctx, k, N, d, tag=''):
    """k rounds of N symbolic Gaussians: (mean, cov) and the objects."""
    raw = [[(ctx.vec('%sm%d_%d_' % (tag, s, i), d), ctx.spd('%sP%d_%d_' % (tag, s, i), d)) for i in range(N)] for s in range(k)]
    return raw, [[gaussian(m, P) for m, P in r] for r in raw]


def make_nodes(ctx, k, N, d, tag='', watch=None):
    raw, gs = marginals(ctx, k, N, d, tag)
    start = gaussian(ctx.vec(tag + 's', d), ctx.spd(tag + 'S', d))
    nodes = [Node([gs[s][i] for s in range(k)], start, watch if i == 0 else None) for i in range(N)]
    return nodes, raw


def check_row(ctx, label, row, cfg, p, q, it, raw, xs):
    r, n = metrics(ctx, raw, xs)
    ctx.true(label + ' transform and seed', row[0] == cfg.Transform and row[1] == cfg.Seed, note='%r' % (row[:2],))
    ctx.eq(label + ' iteration', row[2], it)
    ctx.eq(label + ' power', row[3], p, tol=0)
    ctx.eq(label + ' damping', row[4], q, tol=0)
    ctx.eq(label + ' RMSE', row[5], r)
    ctx.eq(label + ' NLL', row[6], n)


@scenario('C25', [dict(k=k, N=N, d=d, table=t, first=s) for k, N, d, t, s in
           ((1, 1, 1, None, 0), (2, 2, 1, None, 0), (3, 1, 1, 'T2', 0), (1, 3, 1, 'T2', 'sym'), (2, 1, 2, None, 'sym'), (0, 2, 1, None, 0),
            (4, 2, 1, None, 3), (2, 2, 2, 'T2', 0))] +
          [dict(k=12, N=1, d=1, table=None, first=0, start=0.9), dict(k=3, N=5, d=1, table=None, first='sym', start=0.9), dict(k=2, N=2, d=4, table='T2', first=0, start=0.95)],
          [dict(k=10, N=2, d=1, table=None, first=0), dict(k=3, N=3, d=2, table=None, first=0)])
def recording(ctx, k, N, d, table, first):
    """Starting from an empty table."""
    from ExpectationPropagation.Iterations import ep_iterations
    from Utils.Database import create_experiment_table
    it0 = ctx.real('it0', hint=4) if first == 'sym' else first
    cfg, p, q = config(ctx, iter0=it0)
    xs = [ctx.vec('x%d' % i, d) for i in range(N)]
    with Store(ctx) as st:
        conn, other = st.connect(), st.connect()
        kw = {} if table is None else dict(table_name=table)
        name = table or 'UNGM_EXP'
        create_experiment_table(conn.cursor(), **kw)
        conn.commit()

        def watch(done):
            n = other.execute('SELECT COUNT(*) FROM ' + name).fetchone()[0]
            ctx.true('committed rows before sweep %d' % (done + 1), n == done, note='%s rows' % n)
        nodes, raw = make_nodes(ctx, k, N, d, watch=watch)
        ep_iterations(nodes, max_iter=k, x_true=xs, conn=conn, exp_data=cfg, print_result=False, **kw)
        for n in nodes:
            ctx.true('exactly %d sweeps' % k, all(v == k for v in n.n.values()), note='%s' % n.n)
        got = rows(other, name)
        ctx.true('one row per sweep', len(got) == k, note='%d rows' % len(got))
        if len(got) == k:
            for s in range(k):
                check_row(ctx, 'sweep %d' % (s + 1), got[s], cfg, p, q, it0 + s + 1, raw[s], xs)
        ctx.true('the configuration is not changed', cfg.Iter is it0 and cfg.RMSE == 0.0 and cfg.Nodes == [])


@scenario('C25', [dict(k=2, N=1), dict(k=3, N=2)])
def no_truth(ctx, k, N):
    from ExpectationPropagation.Iterations import ep_iterations
    from Utils.Database import create_experiment_table
    cfg, p, q = config(ctx)
    with Store(ctx) as st:
        conn, other = st.connect(), st.connect()
        create_experiment_table(conn.cursor())
        conn.commit()
        nodes, raw = make_nodes(ctx, k, N, 1)
        ep_iterations(nodes, max_iter=k, conn=conn, exp_data=cfg, print_result=False)
        for n in nodes:
            ctx.true('sweeps', all(v == k for v in n.n.values()))
        for i, n in enumerate(nodes):
            ctx.eq('final marginal', n.marginal.mean, raw[-1][i][0], tol=0)
        conn.commit()
        ctx.true('nothing recorded', rows(other, 'UNGM_EXP') == [])


@scenario('C25', [dict(at=a, same=s) for a in (1, 2, 3) for s in (True, False)])
def existing(ctx, at, same):
    """A row stored earlier for the same configuration and iteration stays; a row of another configuration does not matter."""
    from ExpectationPropagation.Iterations import ep_iterations
    from Utils.Database import create_experiment_table, insert_experiment_data
    cfg, p, q = config(ctx)
    k, N, d = 3, 1, 1
    xs = [ctx.vec('x', d)]
    p1 = p if same else p + ctx.real('dp', '+')
    r0, n0 = ctx.real('r0'), ctx.real('n0')
    with Store(ctx) as st:
        conn, other = st.connect(), st.connect()
        db = conn.cursor()
        create_experiment_table(db)
        old = cfg._asdict()
        del old['Nodes']
        old.update(Iter=at, Power=p1, RMSE=r0, NLL=n0, Mean=[1.0], Variance=[2.0])
        insert_experiment_data(db, 'UNGM_EXP', old)
        conn.commit()
        create_experiment_table(db)
        before = rows(other, 'UNGM_EXP')
        ctx.true('stored', len(before) == 1 and before[0][7] == [1.0] and before[0][8] == [2.0])
        nodes, raw = make_nodes(ctx, k, N, d)
        ep_iterations(nodes, max_iter=k, x_true=xs, conn=conn, exp_data=cfg, print_result=False)
        got = rows(other, 'UNGM_EXP')
        ctx.true('number of rows', len(got) == (3 if same else 4), note='%d rows' % len(got))
        if len(got) != (3 if same else 4):
            return
        ctx.true('old row, discrete columns', got[0][0] == 'UT' and got[0][1] == 7 and got[0][7] == [1.0] and got[0][8] == [2.0])
        ctx.eq('old row', np.array([got[0][2], got[0][3], got[0][4], got[0][5], got[0][6]]), np.array([at + 0 * p, p1, q, r0, n0]), tol=0)
        fresh = [s for s in range(k) if not (same and s + 1 == at)]
        for row, s in zip(got[1:], fresh):
            check_row(ctx, 'sweep %d' % (s + 1), row, cfg, p, q, s + 1, raw[s], xs)


@scenario('C25', [dict(same=s) for s in (True, False)])
def twice(ctx, same):
    """Two configurations in one table, or the same one again with other results."""
    from ExpectationPropagation.Iterations import ep_iterations
    from Utils.Database import create_experiment_table
    cfg, p, q = config(ctx)
    cfg2, p2, q2 = (cfg, p, q) if same else config(ctx, 'b')
    k, N, d = 2, 1, 1
    xs = [ctx.vec('x', d)]
    with Store(ctx) as st:
        conn, other = st.connect(), st.connect()
        create_experiment_table(conn.cursor())
        nodes, raw = make_nodes(ctx, k, N, d)
        ep_iterations(nodes, max_iter=k, x_true=xs, conn=conn, exp_data=cfg, print_result=True)
        nodes2, raw2 = make_nodes(ctx, 3, N, d, 'n')
        ep_iterations(nodes2, max_iter=3, x_true=xs, conn=conn, exp_data=cfg2, print_result=True)
        got = rows(other, 'UNGM_EXP')
        ctx.true('number of rows', len(got) == (3 if same else 5), note='%d rows' % len(got))
        if len(got) != (3 if same else 5):
            return
        for s in range(2):
            check_row(ctx, 'first run, sweep %d' % (s + 1), got[s], cfg, p, q, s + 1, raw[s], xs)
        for j, s in enumerate([2] if same else [0, 1, 2]):
            check_row(ctx, 'second run, sweep %d' % (s + 1), got[2 + j], cfg2, p2, q2, s + 1, raw2[s], xs)


@scenario('C25', [dict(col=c) for c in range(9)])
def columns(ctx, col):
    """insert_experiment_data stores every value in its column, and only the key columns decide what is the same row."""
    from Utils.Database import create_experiment_table, insert_experiment_data, Exp_Data
    cfg, p, q = config(ctx)
    base = cfg._asdict()
    del base['Nodes']
    base.update(RMSE=ctx.real('r'), NLL=ctx.real('n'), Iter=ctx.real('it'), Mean=[1, 2], Variance=[3])
    new = dict(base)
    name = list(base)[col]
    new[name] = {'Transform': 'TT', 'Seed': 8, 'Mean': [5], 'Variance': [6]}.get(name, ctx.real('new', hint=11))
    with Store(ctx) as st:
        conn = st.connect()
        db = conn.cursor()
        create_experiment_table(db, 'E')
        create_experiment_table(db, 'Other')
        insert_experiment_data(db, 'E', base)
        insert_experiment_data(db, 'E', new)
        got = rows(conn, 'E')
        key = name in ('Transform', 'Seed', 'Iter', 'Power', 'Damping')
        ctx.true('number of rows', len(got) == (2 if key else 1), note='%d rows' % len(got))
        ctx.true('the other table is empty', rows(conn, 'Other') == [])
        for row, want in zip(got, (base, new)):
            for c, (n, v) in zip(row, want.items()):
                if n in ('Transform', 'Seed', 'Mean', 'Variance'):
                    ctx.true(n, c == v, note='%r instead of %r' % (c, v))
                else:
                    ctx.eq(n, c, v, tol=0)
