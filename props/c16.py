"""C16: node updates as damped power-EP updates."""
from props import scenario
from props.common import np, gaussian, natural

LinAlgError = np.linalg.LinAlgError
KINDS = ('fwd', 'meas', 'back')


class Projection:
    """An estimator that returns given Gaussians, raises, or returns improper ones; it records what it is asked."""

    def __init__(self, ctx, d, power, damping, answer):
        self.ctx, self.d, self.power, self.damping = ctx, d, power, damping
        self.calls, self.answer = [], answer

    def proj_trans(self, func, state):
        self.calls.append(dict(kind='fwd', func=func, cavity=state))
        return self.answer(self, 'fwd')

    def proj_meas(self, func, state, meas):
        self.calls.append(dict(kind='meas', func=func, cavity=state, meas=meas))
        return self.answer(self, 'meas')

    def proj_back(self, func, state, next_fwd_cavity, next_state=None):
        self.calls.append(dict(kind='back', func=func, cavity=state, next_cavity=next_fwd_cavity, next_state=next_state))
        return self.answer(self, 'back')


class Tracker:
    """Natural parameters of every message of a chain, next to the nodes themselves."""

    def __init__(self, ctx, N, d, mode='natural', fhint=1 / 8):
        from ExpectationPropagation.Nodes import build_nodes
        self.ctx, self.N, self.d = ctx, N, d
        self.nodes = build_nodes(N=N, dim=d)
        self.nat, self.funcs, self.meas = [], [], []
        for i, n in enumerate(self.nodes):
            v = {}
            for k in ('marginal', 'forward_factor', 'measurement_factor', 'back_factor'):
                nm = '%s%d' % (k[0], i)
                s = ctx.vec(nm + 's', d)
                if k == 'marginal':
                    if mode == 'moment':
                        P, m = ctx.spd(nm + 'P', d), ctx.vec(nm + 'm', d)
                        g = gaussian(m, P)
                        L = ctx.inv(P)
                        s = L @ m
                    else:
                        L = ctx.spd(nm + 'L', d)
                        ctx.assume(np.trace(L) >= 1e-9, 'marginal not vague')
                        g = natural(L, s)
                else:
                    L = ctx.sym(nm + 'L', d, hint=[[fhint if a == b else 0 for b in range(d)] for a in range(d)])
                    g = natural(L, s)
                setattr(n, k, g)
                v[k] = (L.copy(), s.copy())
            self.nat.append(v)
            self.funcs.append((ctx.fn('f%d' % i, d, d), ctx.fn('h%d' % i, d, 1)))
            n.trans_func, n.meas_func = self.funcs[i]
            y = ctx.vec('y%d' % i, 2 if i % 3 == 2 else 1)
            # as the factor graph stores it: squeezed (and as a vector of one component)
            n.meas = np.squeeze(np.array([[y[0]]], dtype=object if ctx.symbolic else float)) if i % 3 == 0 else y
            self.meas.append(n.meas.copy())
        self.prior = natural(ctx.spd('pL', d), ctx.vec('ps', d))
        self.nodes[0].prior = self.prior
        self.nat_prior = (ctx.spd('pL', d), ctx.vec('ps', d))

    def attach(self, est):
        from ExpectationPropagation.Nodes import node_estimator
        self.nodes = node_estimator(self.nodes, est)

    def cavity(self, kind, i, power):
        v = self.nat[i]
        if kind == 'fwd':
            if i == 0:
                return self.nat_prior
            p = self.nat[i - 1]
            return minus(p['marginal'], p['back_factor'], 1 / power)
        return minus(v['marginal'], v['measurement_factor' if kind == 'meas' else 'back_factor'], 1)

    def next_cavity(self, i, power):
        p = self.nat[i + 1]
        return minus(p['marginal'], p['forward_factor'], 1 / power)

    def target(self, kind, i, proj, power, damping):
        """(factor name, new factor, new marginal) as natural parameters."""
        v = self.nat[i]
        name = {'fwd': 'forward_factor', 'meas': 'measurement_factor', 'back': 'back_factor'}[kind]
        F, M = v[name], v['marginal']
        if kind == 'fwd':
            new = tuple((1 - damping) * a + damping * b for a, b in zip(F, proj))
        else:
            new = tuple(a + damping * (b - c) for a, b, c in zip(F, proj, M))
        marg = tuple(c + (n - a) / power for c, n, a in zip(M, new, F))
        return name, new, marg

    def check(self, label=''):
        """Every node reports the tracked parameters."""
        ctx = self.ctx
        for i, n in enumerate(self.nodes):
            for k, (L, s) in self.nat[i].items():
                g = getattr(n, k)
                ctx.eq('%s%s %d precision' % (label, k, i), g.precision, L)
                ctx.eq('%s%s %d shift' % (label, k, i), g.shift, s)

    def fixed(self, label=''):
        """What no update changes: wiring, data, functions."""
        ctx = self.ctx
        for i, n in enumerate(self.nodes):
            ctx.true(label + 'neighbours', n.prev_node is (self.nodes[i - 1] if i else None) and
                     n.next_node is (self.nodes[i + 1] if i + 1 < self.N else None))
            ctx.true(label + 'index', n.index == i and n.dim == self.d)
            ctx.eq(label + 'observation %d' % i, n.meas, self.meas[i], tol=0)
            asks(ctx, label + 'functions %d' % i, n.trans_func, self.funcs[i][0])
            asks(ctx, label + 'measurement functions %d' % i, n.meas_func, self.funcs[i][1])
        ctx.eq(label + 'prior', self.nodes[0].prior.precision, self.nat_prior[0])
        ctx.eq(label + 'prior shift', self.nodes[0].prior.shift, self.nat_prior[1])


def minus(a, b, w):
    return tuple(x - w * y for x, y in zip(a, b))


def same(ctx, label, g, nat):
    ctx.eq(label + ' precision', g.precision, nat[0])
    ctx.eq(label + ' shift', g.shift, nat[1])


def asks(ctx, label, func, fn):
    """func is the function fn, judged by its value at an arbitrary point."""
    x = ctx.vec('probe', fn.din)
    ctx.eq(label, np.ravel(func(x)), fn.at(x), tol=0)


def run(tr, kind, i):
    n = tr.nodes[i]
    {'fwd': n.fwd_update, 'meas': n.meas_update, 'back': n.back_update}[kind]()


def applied(ctx, n, name, old):
    """Was the update applied?  (Recognition only: what it left behind is stated by the caller.)"""
    return any(new is not o and not (ctx.same(new.precision, o.precision) and ctx.same(new.shift, o.shift))
               for new, o in zip((getattr(n, name), n.marginal), old))


def exercise(ctx, tr, est, kind, i, nat, label=''):
    """Runs one update with a proper projection `nat` and states what must hold.  Returns True when it was applied."""
    name, new, marg = tr.target(kind, i, nat, est.power, est.damping)
    cav = tr.cavity(kind, i, est.power)
    nxt = tr.next_cavity(i, est.power) if kind == 'back' and i + 1 < tr.N else None
    del est.calls[:]
    old = (getattr(tr.nodes[i], name), tr.nodes[i].marginal)
    run(tr, kind, i)
    if kind == 'back' and i + 1 == tr.N:
        ctx.true(label + 'no projection without a next node', not est.calls)
        tr.check(label)
        return False
    ctx.true(label + 'one projection', [c['kind'] for c in est.calls] == [kind])
    if [c['kind'] for c in est.calls] != [kind]:
        return False
    c = est.calls[0]
    same(ctx, label + 'cavity', c['cavity'], cav)
    if kind == 'meas':
        asks(ctx, label + 'measurement function', c['func'], tr.funcs[i][1])
        ctx.eq(label + 'observation', np.ravel(c['meas']), np.ravel(tr.meas[i]), tol=0)
    else:
        asks(ctx, label + 'transition of the right step', c['func'], tr.funcs[i if kind == 'fwd' else i + 1][0])
    if kind == 'back':
        same(ctx, label + 'next cavity', c['next_cavity'], nxt)
        same(ctx, label + 'next marginal', c['next_state'], tr.nat[i + 1]['marginal'])
    done = applied(ctx, tr.nodes[i], name, old)
    if done:
        tr.nat[i][name], tr.nat[i]['marginal'] = new, marg
        for x in ctx.minors(tr.nodes[i].marginal.cov):
            ctx.true(label + 'marginal stays proper', x > 0)
    else:
        ms = ctx.minors(marg[0])
        bad = (ms[0] <= 0) | (np.trace(marg[0]) < 1e-9)
        for x in ms[1:]:
            bad = bad | (x <= 0)
        # or when there is nothing to change
        idle = None
        for a, b in ((new, tr.nat[i][name]), (marg, tr.nat[i]['marginal'])):
            for x, y in zip(np.concatenate([np.ravel(z) for z in a]), np.concatenate([np.ravel(z) for z in b])):
                c = (x - y) * (x - y) <= 1e-18 * (1 + y * y)
                idle = c if idle is None else idle & c
        ctx.true(label + 'rejected only when the marginal would be improper', bad | idle)
    tr.check(label)
    return done


def params(ctx, how):
    if how == 'sym':
        return ctx.real('power', '+', hint=0.5), ctx.real('damping', '+', hint=0.75)
    return how


GRID = [dict(kind=k, N=N, i=i, d=d) for d in (1, 2) for k, N, i in
        (('fwd', 2, 0), ('fwd', 2, 1), ('meas', 1, 0), ('meas', 3, 1), ('back', 2, 0), ('back', 3, 1), ('back', 2, 1))
        if d == 1 or (N, i) != (3, 1)]


@scenario('C16', [dict(g, mode=m, how='sym', start=0.8 if g['d'] == 2 and g['kind'] != 'fwd' and (g['kind'], g['i']) != ('back', 1) else 0) for g in GRID for m in (('natural', 'moment') if g['d'] == 1 else ('natural',))] +
          [dict(kind=k, N=2, i=0, d=2, mode='moment', how=(1, 1)) for k in KINDS] + [dict(kind=k, N=2, i=0, d=1, mode='natural', how=(1, 1)) for k in KINDS] +
          [dict(kind=k, N=N, i=i, d=d, mode=m, how='sym', start=0.95) for k in KINDS for N, i, d, m in
           ((5, 2, 1, 'moment'), (9, 7, 1, 'natural'), (4, 2, 2, 'natural'), (3, 0, 3, 'moment'), (3, 1, 3, 'natural'), (2, 0, 4, 'moment'))],
          [dict(kind=k, N=3, i=1, d=2, mode='moment', how='sym') for k in KINDS] + [dict(kind=k, N=2, i=0, d=3, mode='natural', how='sym') for k in KINDS],
          budget=80)
def update(ctx, kind, N, i, d, mode, how):
    power, damping = params(ctx, how)
    tr = Tracker(ctx, N, d, mode)
    if mode == 'moment':
        P, m = ctx.spd('xP', d), ctx.vec('xm', d)
        g, nat = gaussian(m, P), (ctx.inv(P), ctx.inv(P) @ m)
    else:
        L, s = ctx.spd('xL', d), ctx.vec('xs', d)
        ctx.assume(np.trace(L) >= 1e-9, 'projection not vague')
        g, nat = natural(L, s), (L.copy(), s.copy())
    est = Projection(ctx, d, power, damping, lambda e, k: g)
    tr.attach(est)
    exercise(ctx, tr, est, kind, i, nat)
    tr.fixed()
    if how == 'sym':
        ctx.eq('power of the node', tr.nodes[i].power, power, tol=0)
        ctx.eq('damping of the node', tr.nodes[i].damping, damping, tol=0)


@scenario('C16', [dict(N=1, steps=3), dict(N=2, steps=2)], [dict(N=2, steps=3), dict(N=3, steps=3)], budget=90, max_paths=700)
def history(ctx, N, steps):
    """Any sequence of updates: the messages follow the same equations from wherever the previous updates left them."""
    power, damping = params(ctx, 'sym')
    tr = Tracker(ctx, N, 1)
    box = []
    est = Projection(ctx, 1, power, damping, lambda e, k: box[0])
    tr.attach(est)
    for j in range(steps):
        c = ctx.choose('step%d' % j, 3 * N - 1)
        kind, i = [(k, i) for i in range(N) for k in KINDS if not (k == 'back' and i + 1 == N)][c]
        L, s = ctx.real('x%dL' % j, '+'), ctx.real('x%ds' % j)
        ctx.assume(L >= 1e-9, 'projection not vague')
        box[:] = [natural(ctx.array([[L]]), ctx.array([s]))]
        ok = exercise(ctx, tr, est, kind, i, (ctx.array([[L]]), ctx.array([s])), 'step %d ' % j)
        if ok:
            ctx.assume(tr.nat[i]['marginal'][0][0, 0] >= 1e-9, 'marginal not vague')
    tr.fixed()


@scenario('C16', [dict(first=a, kind=k) for a in KINDS for k in KINDS], [], budget=60)
def settings(ctx, first, kind):
    """Power and damping are those of the moment of the update, whatever they were at an earlier one."""
    tr = Tracker(ctx, 2, 1)
    box = []
    for j, k in enumerate((first, kind)):
        if k == 'fwd':
            i = 1
        else:
            i = 0
        power, damping = ctx.real('power%d' % j, '+', hint=(0.5, 0.25)[j]), ctx.real('damping%d' % j, '+', hint=(0.75, 0.5)[j])
        est = Projection(ctx, 1, power, damping, lambda e, k: box[0])
        tr.attach(est)
        L, s = ctx.real('x%dL' % j, '+'), ctx.real('x%ds' % j)
        ctx.assume(L >= 1e-9, 'projection not vague')
        box[:] = [natural(ctx.array([[L]]), ctx.array([s]))]
        if exercise(ctx, tr, est, k, i, (ctx.array([[L]]), ctx.array([s])), 'update %d ' % j):
            ctx.assume(tr.nat[i]['marginal'][0][0, 0] >= 1e-9, 'marginal not vague')
    tr.fixed()
