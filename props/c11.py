"""C11: the Estimator's backward update."""
from props import scenario
from props.common import np, gaussian, natural, snap, unchanged, rts, cov, SPARSE, MOVES, simple_map, library_map
from props.c09 import state


def rule(ctx, d, spd=True):
    return ctx.transform('T', d, d, spd=spd), ctx.transform('M', d, 1)


@scenario('C11', [dict(d=d, power=p, given=g, mode=m, start=0 if d == 1 or g and p == 1 else 0.8 if p == 'sym' and not g else 0.5) for d in (1, 2)
                  for p, g in ((1, True), (1, False), ('sym', True), ('sym', False), (2, False))
                  for m in (('moment', 'natural') if d == 1 else ('moment',))] +
                 [dict(d=3, power=p, given=g, mode='moment', pat=t, start=0.9) for (p, g), t in zip(((1, True), ('sym', False), (1, False), ('sym', True), (0.5, True)), SPARSE)] +
                 [dict(d=5, power=1, given=True, mode='moment', start=0.9), dict(d=4, power='sym', given=True, mode='moment', start=0.95)],
          [dict(d=3, power=1, given=True, mode='moment'), dict(d=2, power=0.5, given=True, mode='natural'), dict(d=2, power='sym', given=True, mode='natural')], budget=90)
def backward(ctx, d, power, given, mode, pat=None):
    from MomentMatching.Estimator import Estimator
    tm, mm = rule(ctx, d)
    f = ctx.fn('f', d, d)
    al = ctx.real('power', '+', hint=0.5) if power == 'sym' else power
    Q = cov(ctx, 'Q', d, pat)
    Q0 = Q.copy()
    est = Estimator(tm, mm, Q, ctx.sym('R', 1), power=al, damping=ctx.real('damp', '+'))
    g, m, P, arrs = state(ctx, d, mode, pat=pat)
    nx, nm, nP, narrs = state(ctx, d, 'moment', 'n', pat=pat)
    cL, cs = cov(ctx, 'cL', d, pat), ctx.vec('cs', d)
    cav = natural(cL, cs)
    inputs = tuple(arrs) + tuple(narrs) + (cL, cs, Q)
    copies = snap(*inputs)
    if power == 1 and given:
        pass
    out = est.proj_back(f, g, cav, next_state=nx) if given else est.proj_back(f, g, cav)
    row = tm.calls[0]['row']
    V = row['S'] + Q0 / al
    use_next = given and (ctx.decide(al == 1) if power == 'sym' else al == 1)
    if use_next:
        mu, Sigma = nm, nP
    else:
        Vi = ctx.inv(V)
        Lq = Vi + al * copies[-3]
        ctx.assume(np.trace(Lq) >= 1e-9, 'precision of the tilted distribution not vague')
        Sigma = ctx.inv(Lq)
        mu = Sigma @ (Vi @ row['z'] + al * copies[-2])
    em, eP = rts(ctx, m, P, row['z'], V, row['C'], mu, Sigma)
    ctx.eq('mean', out.mean, em)
    ctx.eq('cov', out.cov, eP)
    ctx.true('dimension', out.dim == d)
    for c in tm.calls:
        ctx.eq('map sees the state mean', c['m'], m)
        ctx.eq('map sees the state covariance', c['P'], P)
    ctx.true('only the transition map is used', len(mm.calls) == 0)
    unchanged(ctx, 'input', inputs, copies)
    ctx.eq('next marginal mean', nx.mean, nm)
    ctx.eq('cavity shift', cav.shift, copies[-2])


@scenario('C11', [dict(d=1, given=True), dict(d=1, given=False), dict(d=2, given=True), dict(d=2, given=False)], budget=90)
def indefinite_cavity(ctx, d, given):
    """Cavities need not be proper: only the tilted precision has to be positive definite."""
    from MomentMatching.Estimator import Estimator
    tm, mm = rule(ctx, d)
    f = ctx.fn('f', d, d)
    al = ctx.real('power', '+', hint=0.5)
    est = Estimator(tm, mm, ctx.spd('Q', d), ctx.sym('R', 1), power=al)
    g, m, P, arrs = state(ctx, d)
    cL = ctx.sym('cL', d, hint=[[-1 / 16 if i == j else 0 for j in range(d)] for i in range(d)])
    cs = ctx.vec('cs', d)
    # the rule's answer for this state is fixed by an earlier call, so that it can be constrained before the update
    tm(f, g)
    row = tm.calls[0]['row']
    V = row['S'] + ctx.spd('Q', d) / al
    Vi = ctx.inv(V)
    Lq = Vi + al * cL
    ctx.assume_pd(Lq, 'tilted precision positive definite')
    ctx.assume(np.trace(Lq) >= 1e-9, 'precision of the tilted distribution not vague')
    if given:
        ctx.assume((al < 1) | (al > 1), 'power other than one')
    Sigma = ctx.inv(Lq)
    mu = Sigma @ (Vi @ row['z'] + al * cs)
    nx, nm, nP, _ = state(ctx, d, 'moment', 'n')
    out = est.proj_back(f, g, natural(cL.copy(), cs.copy()), next_state=nx if given else None)
    em, eP = rts(ctx, m, P, row['z'], V, row['C'], mu, Sigma)
    ctx.eq('mean', out.mean, em)
    ctx.eq('cov', out.cov, eP)


@scenario('C11', [dict(d=1), dict(d=2)], budget=60)
def sequence(ctx, d):
    from MomentMatching.Estimator import Estimator
    tm, mm = rule(ctx, d)
    f = ctx.fn('f', d, d)
    est = Estimator(tm, mm, ctx.spd('Q', d), ctx.sym('R', 1), power=1)
    g, m, P, arrs = state(ctx, d)
    for i in range(2):
        nx, nm, nP, narrs = state(ctx, d, 'moment', 'n%d' % i)
        cav = natural(ctx.spd('cL', d), ctx.vec('cs', d))
        k = len(tm.calls)
        out = est.proj_back(f, g, cav, next_state=nx)
        row = tm.calls[k]['row']
        em, eP = rts(ctx, m, P, row['z'], row['S'] + ctx.spd('Q', d), row['C'], nm, nP)
        ctx.eq('mean %d' % i, out.mean, em)
        ctx.eq('cov %d' % i, out.cov, eP)


@scenario('C11', [dict(d=d, k=k, move=mv) for d in (1, 2) for k in 'ut' for mv in ('shift', 'still', 'swap')] + [dict(d=3, k='t', move='still', start=0.5)], budget=60)
def real_maps(ctx, d, k, move):
    """With the library's own transforms and transitions that keep, shift or reverse the state."""
    from MomentMatching.Estimator import Estimator
    t = library_map(d, k)
    f, A, b = simple_map(ctx, d, move)
    est = Estimator(t, t, ctx.spd('Q', d), ctx.sym('R', 1), power=1)
    g, m, P, arrs = state(ctx, d)
    nx, nm, nP, narrs = state(ctx, d, 'moment', 'n')
    cav = natural(ctx.spd('cL', d), ctx.vec('cs', d))
    inputs = tuple(arrs) + tuple(narrs)
    copies = snap(*inputs)
    for again in (1, 2):
        out = est.proj_back(f, g, cav, next_state=nx)
        em, eP = rts(ctx, m, P, A @ m + b, A @ P @ A.T + ctx.spd('Q', d), P @ A.T, nm, nP)
        ctx.eq('mean, call %d' % again, out.mean, em)
        ctx.eq('cov, call %d' % again, out.cov, eP)
        ctx.eq('covariance of the state, call %d' % again, g.cov, P)
    unchanged(ctx, 'input', inputs, copies)
