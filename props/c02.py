"""C02: product, quotient and power act on natural parameters."""
from props import scenario
from props.common import gaussian, natural, np, cov, SPARSE


def operand(ctx, name, d, mode, pat=None):
    """(Gaussian, precision, shift)"""
    if mode == 'moment':
        m, P = ctx.vec(name + 'm', d), cov(ctx, name + 'P', d, pat)
        L = ctx.inv(P)
        return gaussian(m, P), L, L @ m
    L, s = (cov(ctx, name + 'L', d, pat) if pat else ctx.sym(name + 'L', d)), ctx.vec(name + 's', d)
    return natural(L, s), L, s


def check(ctx, label, g, L, s):
    ctx.eq(label + ' precision', g.precision, L)
    ctx.eq(label + ' shift', g.shift, s)


@scenario('C02', [dict(d=d, ma=a, mb=b) for d in (1, 2) for a in ('moment', 'natural') for b in ('moment', 'natural')]
          + [dict(d=d, ma='natural', mb='natural') for d in (3, 4, 6)] + [dict(d=3, ma='moment', mb='natural', start=0.5), dict(d=4, ma='natural', mb='moment', start=0.8), dict(d=5, ma='moment', mb='moment', start=0.9)]
          + [dict(d=3, ma=a, mb=b, pa=p, pb=q) for a, b in (('moment', 'natural'), ('natural', 'moment')) for p, q in (('diagonal', 'chain'), ('identity', 'pairs'), ('arrow', 'diagonal'), ('chain', 'identity'))], [dict(d=3, ma='moment', mb='natural'), dict(d=3, ma='natural', mb='moment')])
def operators(ctx, d, ma, mb, pa=None, pb=None):
    a, La, sa = operand(ctx, 'a', d, ma, pa)
    b, Lb, sb = operand(ctx, 'b', d, mb, pb)
    p = ctx.real('p', hint=0.5)
    check(ctx, 'a*b', a * b, La + Lb, sa + sb)
    check(ctx, 'a/b', a / b, La - Lb, sa - sb)
    check(ctx, 'a**p', a ** p, p * La, p * sa)
    check(ctx, 'a after use', a, La, sa)
    check(ctx, 'b after use', b, Lb, sb)


@scenario('C02', [dict(d=d, ma=a, mb=b) for d in (1, 2) for a in ('moment', 'natural') for b in ('natural', 'moment')] + [dict(d=4, ma='natural', mb='natural'), dict(d=3, ma='moment', mb='natural', start=0.5)])
def laws(ctx, d, ma, mb):
    from StateModel import Gaussian
    a, La, sa = operand(ctx, 'a', d, ma)
    b, Lb, sb = operand(ctx, 'b', d, mb)
    p, q = ctx.real('p', hint=0.5), ctx.real('q', hint=-2)
    check(ctx, '(a*b)/b', (a * b) / b, La, sa)
    check(ctx, '(a/b)*b', (a / b) * b, La, sa)
    x, y = a * b, b * a
    check(ctx, 'a*b = b*a', x, y.precision, y.shift)
    z = a ** p * a ** q
    check(ctx, 'a**p a**q', z, (p + q) * La, (p + q) * sa)
    check(ctx, '(a**p)**q', (a ** p) ** q, p * q * La, p * q * sa)
    u = Gaussian.as_factor(d)
    check(ctx, 'a*1', a * u, La, sa)
    check(ctx, '1*a', u * a, La, sa)
    check(ctx, 'a/1', a / u, La, sa)
    check(ctx, '1/a', u / a, -La, -sa)
    check(ctx, 'a**0', a ** 0, 0 * La, 0 * sa)
    check(ctx, '1**p', u ** p, 0 * La, 0 * sa)
    check(ctx, 'chain', (a * b ** p) / a, p * Lb, p * sb)


@scenario('C02', [dict(d=1), dict(d=2), dict(d=3, start=0.8), dict(d=5, start=0.9)])
def moments_of_product(ctx, d):
    """The moments a product reports are those of the normalised product of densities."""
    from props.common import mul_nat
    ma, mb = ctx.vec('am', d), ctx.vec('bm', d)
    Pa, Pb = ctx.spd('aP', d), ctx.spd('bP', d)
    g = gaussian(ma, Pa) * gaussian(mb, Pb)
    S = ctx.inv(ctx.inv(Pa) + ctx.inv(Pb))
    ctx.assume(np.trace(ctx.inv(Pa) + ctx.inv(Pb)) > 1e-9, 'precision of the product not vague (trace above 1e-9)')
    ctx.eq('cov', g.cov, S)
    ctx.eq('mean', g.mean, S @ (ctx.inv(Pa) @ ma + ctx.inv(Pb) @ mb))


@scenario('C02', [dict(d=d, mode=m, start=s) for d, s in ((1, 0), (3, .5), (4, .9)) for m in ('moment', 'natural')])
def extreme_powers(ctx, d, mode):
    """Powers of very different sizes: nothing is rounded up, cut off or dropped."""
    a, La, sa = operand(ctx, 'a', d, mode)
    for p in (2.0 ** -40, 2.0 ** -20, 2.0 ** -11, 2.0 ** -6, 1, 64, 2.0 ** 11, 2.0 ** 20, -2.0 ** -20, -2.0 ** -8, -1, -300.0):
        g = a ** p
        ctx.eq('a**%g precision' % p, g.precision / p, La)
        ctx.eq('a**%g shift' % p, g.shift / p, sa)
