"""C20: the factor graph is a chain wired to the right times, data and prior."""
from props import scenario
from props.common import np, gaussian, snap, unchanged, NS
from props.c09 import state

FACTORS = ('forward_factor', 'measurement_factor', 'back_factor')


def chain(ctx, nodes, N, d):
    ctx.true('number of nodes', len(nodes) == N)
    for i, n in enumerate(nodes):
        ctx.true('index %d' % i, n.index == i)
        ctx.true('dim %d' % i, n.dim == d)
        ctx.true('previous %d' % i, n.prev_node is (nodes[i - 1] if i else None))
        ctx.true('next %d' % i, n.next_node is (nodes[i + 1] if i + 1 < N else None))


def defaults(ctx, nodes, d):
    for i, n in enumerate(nodes):
        for f in FACTORS:
            ctx.eq('%s %d precision' % (f, i), getattr(n, f).precision, np.zeros((d, d)))
            ctx.eq('%s %d shift' % (f, i), getattr(n, f).shift, np.zeros(d))
        ctx.eq('marginal %d mean' % i, n.marginal.mean, np.zeros(d))
        ctx.eq('marginal %d cov' % i, n.marginal.cov, np.eye(d) * 1e10)


def distinct(ctx, nodes):
    """No message of a node is influenced by changing another message."""
    objs = [(i, f, getattr(n, f)) for i, n in enumerate(nodes) for f in FACTORS + ('marginal',)]
    seen = {}
    for i, f, o in objs:
        at = seen.setdefault(id(o), (i, f))
        ctx.true('messages are separate', at == (i, f), note='%s %d and %s %d' % (f, i, at[1], at[0]))


@scenario('C20', [dict(N=N, d=d) for N, d in ((1, 1), (2, 1), (3, 2), (4, 1), (1, 3), (5, 2), (12, 1), (9, 3), (300, 1))], [dict(N=9, d=3), dict(N=20, d=1), dict(N=1100, d=1)])
def build(ctx, N, d):
    from ExpectationPropagation.Nodes import build_nodes
    nodes = build_nodes(N=N, dim=d)
    chain(ctx, nodes, N, d)
    defaults(ctx, nodes, d)
    distinct(ctx, nodes)
    # one message replaced and one array changed in place: everything else stays
    x = ctx.spd('x', d)
    nodes[0].marginal = gaussian(ctx.vec('m', d), x)
    if N > 1:
        P = nodes[1].forward_factor.precision
        P[0, 0] = P[0, 0] + ctx.real('e')
        for i, n in enumerate(nodes):
            for f in FACTORS:
                if (i, f) != (1, 'forward_factor'):
                    ctx.eq('untouched %s %d' % (f, i), getattr(n, f).precision, np.zeros((d, d)))
            if i:
                ctx.eq('untouched marginal %d' % i, n.marginal.cov, np.eye(d) * 1e10)
    other = build_nodes(N=N, dim=d)
    defaults(ctx, other, d)
    chain(ctx, other, N, d)
    chain(ctx, nodes, N, d)


def estimator(ctx, tag=''):
    log = []

    def mk(kind):
        def p(*a, **k):
            log.append((kind, a, k))
            raise np.linalg.LinAlgError('only the call matters')
        return p
    return NS(proj_trans=mk('fwd'), proj_meas=mk('meas'), proj_back=mk('back'), power=ctx.real(tag + 'power', '+', hint=0.5),
              damping=ctx.real(tag + 'damping', '+', hint=0.75)), log


@scenario('C20', [dict(N=N, d=d, k=k, farg=g, how=h) for N, d, k, g, h in
                  ((1, 1, 1, False, 0), (2, 1, 1, True, 1), (3, 1, 2, False, 1), (4, 2, 1, False, 2), (3, 2, 2, True, 0), (1, 2, 1, True, 2), (12, 1, 1, True, 1), (11, 2, 1, False, 2), (9, 3, 2, True, 0))],
          [dict(N=8, d=2, k=1, farg=False, how=1)])
def wiring(ctx, N, d, k, farg, how):
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    est, log = estimator(ctx)
    nodes = build_nodes(N=N, dim=d, estimator=est if how == 0 else None)
    f, h = ctx.fn('f', d, d), ctx.fn('h', d, k)
    g0, m0, P0, _ = state(ctx, d, name='i')
    dt = ctx.real('dt', hint=0.5)
    sysm = NS(transition=lambda x, t=None, u=None: f(x, t, u), measurement=lambda x, t=None, u=None: h(x, t, u), init_state=g0,
              dt=dt, system_dim=d, measurement_dim=k)
    ys = [ctx.vec('y%d' % i, k) for i in range(N)]
    args = [dict(t=ctx.real('t%d' % i), u=ctx.real('u%d' % i)) for i in range(N)] if farg else None
    before = list(nodes)
    if how == 1:
        out = node_estimator(nodes, est)
        ctx.true('estimator keeps nodes and order', len(out) == N and all(a is b for a, b in zip(out, before)))
        nodes = out
    copies = snap(*ys)
    # observations as rows of one array and as a list
    meas = np.array(ys) if N % 2 else [y.reshape(1, -1) for y in ys]
    out = node_system(nodes, sysm, meas, farg_list=args) if farg else node_system(nodes, sysm, meas)
    ctx.true('system keeps nodes and order', len(out) == N and all(a is b for a, b in zip(out, before)))
    nodes = out
    if how == 2:
        nodes = node_estimator(nodes, est)
        ctx.true('order', len(nodes) == N and all(a is b for a, b in zip(nodes, before)))
    chain(ctx, nodes, N, d)
    defaults(ctx, nodes, d)
    unchanged(ctx, 'observation', ys, copies)
    x = ctx.vec('x', d)
    for i, n in enumerate(nodes):
        ctx.eq('observation %d' % i, np.ravel(n.meas), ys[i], tol=0)
        t, u = (args[i]['t'], args[i]['u']) if farg else (i * dt, 0.0)
        ctx.eq('transition %d' % i, np.ravel(n.trans_func(x)), f.at(x, t, u), tol=0)
        ctx.eq('measurement function %d' % i, np.ravel(n.meas_func(x)), h.at(x), tol=0)
        ctx.eq('power %d' % i, n.power, est.power, tol=0)
        ctx.eq('damping %d' % i, n.damping, est.damping, tol=0)
        p = getattr(n, 'prior', None)
        ctx.true('prior on the first node only', (p is not None) == (i == 0))
    ctx.eq('prior mean', nodes[0].prior.mean, m0)
    ctx.eq('prior cov', nodes[0].prior.cov, P0)
    for i, n in enumerate(nodes):
        for kind, call in (('fwd', n.fwd_update), ('meas', n.meas_update), ('back', n.back_update)):
            del log[:]
            try:
                call()
            except np.linalg.LinAlgError:
                ctx.fail('%s of node %d handles the failure' % (kind, i))
            exp = [] if kind == 'back' and i + 1 == N else [kind]
            ctx.true('%s of node %d uses its projection' % (kind, i), [l[0] for l in log] == exp)


@scenario('C20', [dict(N=2), dict(N=3), dict(N=10)], [dict(N=60)])
def two_systems(ctx, N):
    """Graphs built for different systems and estimators do not share anything; defaults of estimators without power."""
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    res = []
    for tag in ('a', 'b'):
        est, log = estimator(ctx, tag)
        f, h = ctx.fn('f' + tag, 1, 1), ctx.fn('h' + tag, 1, 1)
        g0, m0, P0, _ = state(ctx, 1, name=tag)
        dt = ctx.real(tag + 'dt', hint=0.5)
        sysm = NS(transition=lambda x, t=None, u=None, f=f: f(x, t, u), measurement=lambda x, t=None, u=None, h=h: h(x, t, u),
                  init_state=g0, dt=dt)
        ys = [ctx.vec('%sy%d' % (tag, i), 1) for i in range(N)]
        nodes = node_system(node_estimator(build_nodes(N, 1), est), sysm, ys)
        res.append((nodes, est, f, h, m0, P0, dt, ys))
    x = ctx.vec('x', 1)
    for nodes, est, f, h, m0, P0, dt, ys in res:
        chain(ctx, nodes, N, 1)
        for i, n in enumerate(nodes):
            ctx.eq('observation', np.ravel(n.meas), ys[i], tol=0)
            ctx.eq('transition', np.ravel(n.trans_func(x)), f.at(x, i * dt, 0.0), tol=0)
            ctx.eq('measurement', np.ravel(n.meas_func(x)), h.at(x), tol=0)
            ctx.eq('power', n.power, est.power, tol=0)
            ctx.eq('damping', n.damping, est.damping, tol=0)
        ctx.eq('prior', nodes[0].prior.mean, m0)
    bare = NS(proj_trans=None, proj_meas=None, proj_back=None)
    for n in node_estimator(build_nodes(N, 1), bare):
        ctx.true('power one by default', n.power == 1)
        ctx.true('damping one by default', n.damping == 1)


@scenario('C20', [dict(N=N) for N in (1, 2, 5)])
def attached_again(ctx, N):
    """Another estimator and another system on the same nodes: the nodes use the last ones given, and only these."""
    from ExpectationPropagation.Nodes import build_nodes, node_estimator, node_system
    nodes = build_nodes(N, 1)
    x = ctx.vec('x', 1)
    for r, tag in enumerate('abc'):
        est, log = estimator(ctx, tag)
        f, h = ctx.fn('f' + tag, 1, 1), ctx.fn('h' + tag, 1, 1)
        g0, m0, P0, _ = state(ctx, 1, name=tag)
        dt = ctx.real(tag + 'dt', hint=0.5 + r)
        sysm = NS(transition=lambda x, t=None, u=None, f=f: f(x, t, u), measurement=lambda x, t=None, u=None, h=h: h(x, t, u),
                  init_state=g0, dt=dt)
        ys = [ctx.vec('%sy%d' % (tag, i), 1) for i in range(N)]
        args = [dict(t=ctx.real('t%d' % i), u=ctx.real('u%d' % i)) for i in range(N)] if r == 1 else None
        nodes = node_system(node_estimator(nodes, est), sysm, ys, args) if args else node_system(node_estimator(nodes, est), sysm, ys)
        chain(ctx, nodes, N, 1)
        for i, n in enumerate(nodes):
            t, u = (args[i]['t'], args[i]['u']) if args else (i * dt, 0.0)
            ctx.eq('observation', np.ravel(n.meas), ys[i], tol=0)
            ctx.eq('transition', np.ravel(n.trans_func(x)), f.at(x, t, u), tol=0)
            ctx.eq('measurement', np.ravel(n.meas_func(x)), h.at(x), tol=0)
            ctx.eq('power', n.power, est.power, tol=0)
            ctx.eq('damping', n.damping, est.damping, tol=0)
            for kind, call in (('fwd', n.fwd_update), ('meas', n.meas_update), ('back', n.back_update)):
                del log[:]
                call()
                ctx.true('%s of node %d uses the last projection' % (kind, i), [l[0] for l in log] == ([] if kind == 'back' and i + 1 == N else [kind]))
        ctx.eq('prior mean', nodes[0].prior.mean, m0)
        ctx.eq('prior covariance', nodes[0].prior.cov, P0)


@scenario('C20', [dict(N=N) for N in (1, 2, 3, 5)])
def keywords(ctx, N):
    """The transition of a node gets exactly the keyword arguments supplied for it; the others keep the defaults of the model."""
    from ExpectationPropagation.Nodes import build_nodes, node_system
    f, h = ctx.fn('f', 1, 1), ctx.fn('h', 1, 1)
    g0, m0, P0, _ = state(ctx, 1, name='i')
    t0, u0, dt = ctx.real('t0'), ctx.real('u0'), ctx.real('dt', hint=0.5)
    sysm = NS(transition=lambda x, t=t0, u=u0: f(x, t, u), measurement=lambda x, t=None, u=None: h(x, t, u), init_state=g0, dt=dt)
    ys = [ctx.vec('y%d' % i, 1) for i in range(N)]
    x = ctx.vec('x', 1)
    for case in range(4):
        args = []
        for i in range(N):
            full = dict(t=ctx.real('t%d%d' % (case, i)), u=ctx.real('u%d%d' % (case, i)))
            args.append({k: v for k, v in full.items() if ((case + i) & (1 if k == 't' else 2)) == 0})
        given = [dict(a) for a in args]
        nodes = node_system(build_nodes(N, 1), sysm, ys, farg_list=args)
        for i, n in enumerate(nodes):
            ctx.eq('transition %d' % i, np.ravel(n.trans_func(x)), f.at(x, given[i].get('t', t0), given[i].get('u', u0)), tol=0)
        ctx.true('the list is the one given', [sorted(a) for a in args] == [sorted(a) for a in given])
