"""C03: reads, copies and operators have no effect."""
from props import scenario
from props.common import np, mul_nat

OPS = ['mean', 'cov', 'precision', 'shift', 'dim', 'copy', 'mul', 'rmul', 'div', 'rdiv', 'pow', 'nll', 'error', 'chol', 'repr', 'eq', 'sample', 'self']


def apply(ctx, op, g, h, x, src):
    if op in ('mean', 'cov', 'precision', 'shift', 'dim'):
        getattr(g, op)
    elif op == 'copy':
        c = g.copy()
        c.mean, c.cov, c.precision, c.shift
    elif op == 'mul':
        r = g * h
        r.mean, r.cov
    elif op == 'rmul':
        r = h * g
        r.mean, r.cov
    elif op == 'div':
        r = g / h
        r.precision, r.shift
    elif op == 'rdiv':
        r = h / g
        r.precision, r.shift
    elif op == 'pow':
        r = g ** 0.5
        r.mean, r.cov
    elif op == 'nll':
        g.nll(x)
    elif op == 'error':
        g.squared_error(x)
    elif op == 'chol':
        g.chol_cov
    elif op == 'repr':
        repr(g), str(g)
    elif op == 'eq':
        g == g
    elif op == 'sample':
        g.sample(2)
    elif op == 'self':
        r = g * g / g
        r.precision, r.shift


@scenario('C03', [dict(d=d, mode=m, steps=2) for d in (1, 2) for m in ('moment', 'natural')] + [dict(d=4, mode=m, steps=1, start=0.9) for m in ('moment', 'natural')],
          [dict(d=2, mode=m, steps=3) for m in ('moment', 'natural')] + [dict(d=3, mode=m, steps=1) for m in ('moment', 'natural')],
          max_paths=8000, budget=60, tbudget=400)
def history(ctx, d, mode, steps):
    """Any sequence of operations (the sequence is symbolic) leaves the distribution and the input arrays as they were."""
    from StateModel import Gaussian
    src = ctx.source()
    hm, hP = ctx.vec('hm', d), ctx.spd('hP', d)
    h = Gaussian(hm, hP)
    x = ctx.vec('x', d)
    if mode == 'moment':
        a, B = ctx.vec('m', d), ctx.spd('P', d)
        m, P = a.copy(), B.copy()
        L = ctx.inv(P)
        s = L @ m
        g = Gaussian(a, B)
    else:
        a, B = ctx.vec('s', d), ctx.spd('L', d)
        s, L = a.copy(), B.copy()
        P = ctx.inv(L)
        m = P @ s
        g = Gaussian(shift_vec=a, precision_mat=B)
    ctx.assume(np.trace(L) >= 1e-9, 'precision not vague')
    ctx.assume(np.trace(ctx.inv(hP)) >= 1e-9)
    a0, B0, x0, hm0, hP0 = a.copy(), B.copy(), x.copy(), hm.copy(), hP.copy()
    for i in range(steps):
        apply(ctx, OPS[ctx.choose('op%d' % i, len(OPS))], g, h, x, src)
    c = g.copy()
    for n, q in (('original', g), ('copy', c)):
        ctx.eq(n + ' mean', q.mean, m)
        ctx.eq(n + ' cov', q.cov, P)
        ctx.eq(n + ' precision', q.precision, L)
        ctx.eq(n + ' shift', q.shift, s)
        ctx.true(n + ' dim', q.dim == d)
    ctx.eq('location argument', a, a0, tol=0)
    ctx.eq('matrix argument', B, B0, tol=0)
    ctx.eq('point', x, x0, tol=0)
    ctx.eq('other mean', hm, hm0, tol=0)
    ctx.eq('other cov', hP, hP0, tol=0)
    ctx.eq('other operand precision', h.precision, ctx.inv(hP0))
    ctx.eq('other operand mean', h.mean, hm0)


@scenario('C03', [dict(d=d, mode=m, op=o) for d in (2,) for m in ('moment', 'natural')
                  for o in ('copy', 'mul', 'div', 'pow', 'factor', 'marginal')] + [dict(d=4, mode='natural', op=o) for o in ('copy', 'mul', 'pow')] +
                 [dict(d=4, mode='moment', op=o, start=0.8) for o in ('copy', 'mul', 'pow')])
def derived(ctx, d, mode, op):
    """A Gaussian derived from another keeps its parameters whatever is read from, or computed with, the original later."""
    from StateModel import Gaussian
    a, B = ctx.vec('a', d), ctx.spd('B', d)
    g = Gaussian(a, B) if mode == 'moment' else Gaussian(shift_vec=a, precision_mat=B)
    hm, hL = ctx.vec('hs', d), ctx.spd('hL', d)
    h = Gaussian.from_natural(hL, hm)
    L, s = (ctx.inv(B), ctx.inv(B) @ a) if mode == 'moment' else (B.copy(), a.copy())
    p = ctx.real('p', '+', hint=0.5)
    r, Lr, sr = {'copy': lambda: (g.copy(), L, s), 'mul': lambda: (g * h, L + hL, s + hm), 'div': lambda: (g / h, L - hL, s - hm),
                 'pow': lambda: (g ** p, p * L, p * s),
                 'factor': lambda: (g * Gaussian.as_factor(d), L, s),
                 'marginal': lambda: (g * Gaussian.as_marginal(d), L + ctx.array(np.eye(d)) / 10 ** 10, s)}[op]()
    q = g * r
    q.precision, q.shift
    (g ** 2).shift, (g / r).precision, (r * h).shift
    g.precision, g.shift
    u, v = Gaussian.as_factor(d), Gaussian.as_factor(d)
    (u * g).precision, (u * h).shift
    ctx.eq('derived precision', r.precision, Lr)
    ctx.eq('derived shift', r.shift, sr)
    ctx.eq('unit factor precision', v.precision, np.zeros((d, d)))
    ctx.eq('used unit factor precision', u.precision, np.zeros((d, d)))
    ctx.eq('used unit factor shift', u.shift, np.zeros((d,)))
    ctx.eq('original precision', g.precision, L)
    ctx.eq('original shift', g.shift, s)
