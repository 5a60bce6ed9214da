"""C30: the coordinated-turn experiments score position, velocity and turn rate separately."""
from props import scenario
from props.common import np, gaussian, natural
from props.store import Store
from props.c25 import Node, metrics

PARTS = dict(position=[0, 2], velocity=[1, 3], angle=[4])
ORDER = ('position', 'velocity', 'angle')


def part(raw, xs, q):
    i = PARTS[q]
    return [(m[i], P[np.ix_(i, i)]) for m, P in raw], [np.ravel(x)[i] for x in xs]


def expected(ctx, raw, xs):
    out = []
    for q in ORDER:
        out += list(metrics(ctx, *part(raw, xs, q)))
    return out


def states(ctx, N, tag=''):
    raw = [(ctx.vec('%sm%d_' % (tag, i), 5), ctx.spd('%sP%d_' % (tag, i), 5)) for i in range(N)]
    return raw, [gaussian(m, P) for m, P in raw]


class N1:
    def __init__(self, g):
        self.marginal = g


@scenario('C30', [dict(N=1, who='EP'), dict(N=2, who='EP'), dict(N=3, who='EP', start=0.5), dict(N=1, who='IEKS'), dict(N=2, who='IEKS'),
                  dict(N=8, who='EP', start=0.9), dict(N=8, who='IEKS', start=0.9)],
          [dict(N=6, who='EP'), dict(N=6, who='IEKS')])
def metric(ctx, N, who):
    raw, gs = states(ctx, N)
    xs = [ctx.vec('x%d_' % i, 5) for i in range(N)]
    if who == 'EP':
        from Experiments.EP_Sweep_BearingsOnly import node_metrics
        got = node_metrics([N1(g) for g in gs], [x.reshape(1, 5) for x in xs])
    else:
        from Experiments.IEKS_Sweep_BearingsOnly import componentwise_metrics
        got = componentwise_metrics(gs, np.array(xs))
    ctx.true('six values', len(got) == 6)
    for g, e, n in zip(got, expected(ctx, raw, xs), [q + ' ' + k for q in ORDER for k in ('RMSE', 'NLL')]):
        ctx.eq(n, g, e)
    for g, (m, P) in zip(gs, raw):
        ctx.eq('mean afterwards', g.mean, m)
        ctx.eq('covariance afterwards', g.cov, P)


COLS = 'Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL'


def config(ctx, tag=''):
    from Experiments.EP_Sweep_BearingsOnly import Exp_Data
    p, q = ctx.real(tag + 'power', '+', hint=0.5), ctx.real(tag + 'damping', '+', hint=0.75)
    return Exp_Data(Transform='UT' + tag, Quantity=None, Seed=7, Iter=0, Power=p, Damping=q, RMSE=0.0, NLL=0.0), p, q


@scenario('C30', [dict(k=1, N=1, at=0), dict(k=2, N=1, at=0), dict(k=1, N=2, at=0), dict(k=2, N=1, at=1), dict(k=2, N=1, at=2), dict(k=0, N=1, at=0), dict(k=11, N=1, at=0, start=0.95), dict(k=2, N=3, at=0, start=0.95), dict(k=11, N=2, at=0, start=0.97), dict(k=12, N=3, at=7, start=0.98)],
          [dict(k=5, N=1, at=3), dict(k=3, N=3, at=2)])
def recording(ctx, k, N, at):
    """at: iteration whose velocity row is stored already."""
    from Experiments.EP_Sweep_BearingsOnly import ep_iterations, create_experiment_table, insert_experiment_data
    cfg, p, q = config(ctx)
    raws, gss = zip(*[states(ctx, N, 's%d' % s) for s in range(k)]) if k else ((), ())
    xs = [ctx.vec('x%d_' % i, 5) for i in range(N)]
    start = gaussian(ctx.vec('b', 5), ctx.spd('B', 5))
    with Store(ctx) as st:
        conn, other = st.connect(), st.connect()
        create_experiment_table(conn.cursor())
        create_experiment_table(conn.cursor(), 'Z')
        if at:
            old = cfg._asdict()
            old.update(Quantity='velocity', Iter=at, RMSE=ctx.real('r0'), NLL=ctx.real('n0'))
            insert_experiment_data(conn.cursor(), 'BOTT_EXP', old)
        conn.commit()

        def watch(done):
            n = other.execute("SELECT COUNT(*) FROM BOTT_EXP WHERE Iter <= %d AND (Quantity != 'velocity' OR Iter != %d)" % (done, at)).fetchone()[0]
            want = 3 * done - (1 if at and at <= done else 0)
            ctx.true('committed rows before sweep %d' % (done + 1), n == want, note='%s rows' % n)
        nodes = [Node([gss[s][i] for s in range(k)], start, watch if i == 0 else None) for i in range(N)]
        ep_iterations(nodes, max_iter=k, x_true=[x.reshape(1, 5) for x in xs], conn=conn, exp_data=cfg, print_result=False)
        for n in nodes:
            ctx.true('exactly %d sweeps' % k, all(v == k for v in n.n.values()), note='%s' % n.n)
        ctx.true('other tables are not touched', other.execute('SELECT COUNT(*) FROM Z').fetchone()[0] == 0)
        got = other.execute('SELECT %s FROM BOTT_EXP' % COLS).fetchall()
        ctx.true('number of rows', len(got) == 3 * k, note='%d' % len(got))
        for s in range(k):
            for name in ORDER:
                r = [x for x in got if x[1] == name and x[3] == s + 1]
                ctx.true('one %s row for sweep %d' % (name, s + 1), len(r) == 1)
                if len(r) != 1:
                    continue
                r = r[0]
                ctx.true('transform and seed', r[0] == 'UT' and r[2] == 7)
                ctx.eq('power', r[4], p, tol=0)
                ctx.eq('damping', r[5], q, tol=0)
                if name == 'velocity' and s + 1 == at:
                    ctx.eq('old RMSE', r[6], old['RMSE'], tol=0)
                    ctx.eq('old NLL', r[7], old['NLL'], tol=0)
                else:
                    e = metrics(ctx, *part(raws[s], xs, name))
                    ctx.eq('%s RMSE after sweep %d' % (name, s + 1), r[6], e[0])
                    ctx.eq('%s NLL after sweep %d' % (name, s + 1), r[7], e[1])


@scenario('C30', [dict(k=2)])
def no_truth(ctx, k):
    from Experiments.EP_Sweep_BearingsOnly import ep_iterations, create_experiment_table
    cfg, p, q = config(ctx)
    raw, gs = states(ctx, k)
    with Store(ctx) as st:
        conn, other = st.connect(), st.connect()
        create_experiment_table(conn.cursor())
        conn.commit()
        n = Node(gs, gs[0])
        ep_iterations([n], max_iter=k, conn=conn, exp_data=cfg, print_result=True)
        conn.commit()
        ctx.true('sweeps', all(v == k for v in n.n.values()))
        ctx.eq('final marginal', n.marginal.mean, raw[-1][0], tol=0)
        ctx.true('nothing recorded', other.execute('SELECT COUNT(*) FROM BOTT_EXP').fetchone()[0] == 0)
