"""Arbitrary functions and arbitrary moment-matching rules as tables of fresh symbols (symbolic side)."""
import numpy as np
from fractions import Fraction

from . import core, shim
from .core import Sym, coerce, Unsupported
from .shim import obj, zeros


def tagkey(x):
    if x is None:
        return None
    if isinstance(x, np.ndarray):
        return tuple(tagkey(y) for y in x.ravel())
    try:
        y = coerce(x)
    except Unsupported:
        y = None
    return y.key if y is not None else repr(x)


def clashes(rows, args, vals, ev):
    """Pairs of rows whose arguments agree at these inputs and whose values do not."""
    seen, out = {}, []
    for r in rows:
        a = [x for x in args(r)]
        k = tuple(round(float(ev.sym(x)), 8) if isinstance(x, Sym) else repr(x) for x in a)
        for q in seen.setdefault(k, ()):
            if any(x is not None and y is not None and x.key != y.key and abs(float(ev.sym(x)) - float(ev.sym(y))) > 1e-9 for x, y in zip(vals(q), vals(r))):
                out.append((q, r))
        seen[k] = seen[k] + (r,)
    return out


def congruent(q, r, args, vals):
    """Equal arguments give equal values, as SMT text with its variables."""
    from . import smt
    vs, no, yes = set(), [], []
    for x, y in zip(args(q), args(r)):
        if isinstance(x, Sym) and isinstance(y, Sym) and x.key != y.key:
            vs |= x.vars() | y.vars()
            no.append('(not (= %s %s))' % smt.cross(x, y))
    for x, y in zip(vals(q), vals(r)):
        if x is not None and y is not None and x.key != y.key:
            vs |= x.vars() | y.vars()
            yes.append('(= %s %s)' % smt.cross(x, y))
    return '(or %s (and true %s))' % (' '.join(no) or 'false', ' '.join(yes)), vs


def flat(x):
    if x is None:
        return [None]
    if isinstance(x, np.ndarray):
        return [z for y in x.ravel() for z in flat(y)]
    try:
        y = coerce(x)
    except Unsupported:
        y = None
    return [y if y is not None else x]


def tagval(x, ev):
    if x is None:
        return None
    if isinstance(x, np.ndarray):
        return [tagval(y, ev) for y in x.ravel()]
    y = coerce(x)
    return float(ev.sym(y)) if y is not None else repr(x)


class SymFn:
    """An arbitrary function R^din -> R^dout (of x and of t, u): one vector of fresh values per distinct argument, and
    an arbitrary Jacobian there.  style 'batch': rows in, rows out, always two-dimensional.  'vec': keeps the rank."""

    def __init__(self, ctx, name, din, dout, style='batch', hint=None, kink=False):
        self.ctx, self.name, self.din, self.dout, self.style = ctx, name, din, dout, style
        self.rows, self.calls, self.hint = {}, [], hint
        ctx.fns.append(self)
        self.f = make_primitive(self)

    def __call__(self, x, t=None, u=None):
        return self.f(x, t, u)

    def row(self, x, t, u):
        k = (tuple(c.key for c in x), tagkey(t), tagkey(u))
        r = self.rows.get(k)
        if r is None:
            i = len(self.rows)
            y = [self.ctx.real('%s#%d_%d' % (self.name, i, j + 1)) for j in range(self.dout)]
            r = self.rows[k] = dict(i=i, x=list(x), t=t, u=u, y=y, J=None)
        return r

    def jac(self, r):
        if r['J'] is None:
            J = np.empty((self.dout, self.din), dtype=object)
            for a in range(self.dout):
                for b in range(self.din):
                    J[a, b] = self.ctx.real('D%s#%d_%d%d' % (self.name, r['i'], a + 1, b + 1))
            r['J'] = J
        return r['J']

    def value(self, x, t=None, u=None):
        x = obj(x)
        flat = x.reshape(-1, self.din) if x.ndim else x.reshape(1, 1)
        if x.ndim > 2 or flat.shape[1] != self.din:
            raise ValueError('argument of shape %s for a function of %d variables' % (x.shape, self.din))
        self.calls.append((x, t, u))
        out = np.empty((flat.shape[0], self.dout), dtype=object)
        for i in range(flat.shape[0]):
            out[i, :] = self.row(flat[i], t, u)['y']
        if self.style == 'vec' and x.ndim <= 1:
            return out[0]
        return out

    def pull(self, g, x, t=None, u=None):
        x = obj(x)
        flat = x.reshape(-1, self.din)
        g = obj(g).reshape(-1, self.dout)
        out = np.empty(flat.shape, dtype=object)
        for i in range(flat.shape[0]):
            out[i, :] = g[i] @ self.jac(self.row(flat[i], t, u))
        return out.reshape(x.shape)

    def args(self, r):
        return r['x'] + flat(r['t']) + flat(r['u'])

    def vals(self, r):
        return r['y'] + ([None] * (self.din * self.dout) if r['J'] is None else list(r['J'].ravel()))

    # for the oracles
    def at(self, x, t=None, u=None):
        x = obj(x).reshape(-1)
        return np.array(self.row(x, t, u)['y'] + [None], dtype=object)[:-1]

    def jac_at(self, x, t=None, u=None):
        x = obj(x).reshape(-1)
        return self.jac(self.row(x, t, u)).copy()

    def table(self, ev):
        rows = []
        for r in self.rows.values():
            rows.append(dict(x=[float(ev.sym(c)) for c in r['x']], t=tagval(r['t'], ev), u=tagval(r['u'], ev),
                             y=[float(ev.sym(c)) for c in r['y']],
                             J=None if r['J'] is None else [[float(ev.sym(c)) for c in q] for q in r['J']]))
        return dict(kind='fn', name=self.name, rows=rows)


def make_primitive(self):
    from autograd.extend import primitive, defvjp

    @primitive
    def f(x, t=None, u=None):
        return self.value(x, t, u)
    defvjp(f, lambda ans, x, t=None, u=None: lambda g: self.pull(g, x, t, u), argnums=(0,))
    return f


class SymTransform:
    """An arbitrary moment-matching rule: fresh mean, symmetric covariance and cross-covariance per distinct call.

    A call is identified by the value of the function at the mean (which names the function and its time and control
    when the function is a SymFn) and by the mean and covariance of the state."""

    def __init__(self, ctx, name, din, dout, style='batch', spd=False, asym=False, small=False):
        self.ctx, self.name, self.din, self.dout, self.style = ctx, name, din, dout, style
        self.spd, self.asym, self.small = spd, asym, small     # small: witnesses with weak correlation
        self.rows, self.calls = {}, []
        ctx.fns.append(self)

    def __call__(self, func, state):
        m, P = obj(state.mean), obj(state.cov)
        v = obj(func(m))
        k = (tuple(c.key for c in v.ravel()), tuple(c.key for c in m.ravel()), tuple(c.key for c in P.ravel()))
        r = self.rows.get(k)
        if r is None:
            i = len(self.rows)
            n = '%s#%d' % (self.name, i)
            z = self.ctx._vec(n + 'z', self.dout)
            if self.asym:
                S = self.ctx._mat(n + 'S', self.dout, self.dout, hint=self.ctx.dominant(self.dout))
            else:
                S = self.ctx._spd(n + 'S', self.dout) if self.spd else self.ctx._sym(n + 'S', self.dout)
            h = [[Fraction((3 * i + 5 * a + 7 * b) % 5 - 2, 32) + Fraction(1, 16) for b in range(self.dout)] for a in range(self.din)]
            C = self.ctx._mat(n + 'C', self.din, self.dout, hint=h if self.small else None)
            r = self.rows[k] = dict(m=m, P=P, v=v, z=z, S=S, C=C)
        self.calls.append(dict(m=m, P=P, row=r))
        return self.shape_mean(r['z']), r['S'].copy(), r['C'].copy()

    def args(self, r):
        return list(r['m'].ravel()) + list(r['P'].ravel()) + list(r['v'].ravel())

    def vals(self, r):
        return list(r['z'].ravel()) + list(r['S'].ravel()) + list(r['C'].ravel())

    def shape_mean(self, z):
        return z.copy()

    def table(self, ev):
        f = lambda a: [float(ev.sym(c)) for c in a.ravel()]
        return dict(kind='transform', name=self.name,
                    rows=[dict(m=f(r['m']), P=f(r['P']), v=f(r['v']), z=f(r['z']), S=f(r['S']), C=f(r['C']))
                          for r in self.rows.values()])


class Source:
    """The random source.  It delivers a stream of standard normal variates z_0, z_1, ...: fresh symbols, or the values
    of a script.  A multivariate draw is mean + L z with L the lower Cholesky factor of the covariance."""

    def __init__(self, ctx, name='w'):
        self.ctx, self.name = ctx, name
        self.seeds = []
        self.reset()
        shim.RNG[0] = self

    def reseed(self, seed):
        """Seeding starts the stream that belongs to the seed."""
        self.seeds.append(seed)
        if self.script is None:
            self.name, self.n = 'seed%s' % seed, 0

    def reset(self, script=None):
        self.n, self.script, self.calls = 0, script, []

    def z(self):
        i = self.n
        self.n += 1
        if self.script is not None:
            return coerce(self.script(i))
        return self.ctx.real('%s#%d' % (self.name, i))

    def draw(self, mean, cov, shape):
        out = np.empty(tuple(shape) + (mean.shape[0],), dtype=object)
        L = psd_chol(shim.from_triangle(cov, True))
        for i in np.ndindex(*shape):
            z = np.array([self.z() for _ in range(mean.shape[0])] + [None], dtype=object)[:-1]
            out[i] = mean + L @ z
        self.calls.append(('mvn', tuple(shape)))
        return out

    def standard(self, shape):
        self.calls.append(('std', tuple(shape)))
        if not shape:
            return self.z()
        out = np.empty(shape, dtype=object)
        for i in np.ndindex(*shape):
            out[i] = self.z()
        return out


def psd_chol(M):
    """Cholesky factor; rows of zeros allowed (degenerate noise)."""
    n = M.shape[0]
    keep = [i for i in range(n) if any(M[i, j].n for j in range(n))]
    L = zeros((n, n))
    if keep:
        S = M[np.ix_(keep, keep)]
        if not shim.is_pd(S):
            raise Unsupported('random draw with a covariance that is not positive definite')
        L[np.ix_(keep, keep)] = shim.chol_lower(S)
    return L


class Perturb:
    """Every result of a numerical linear-algebra routine is off by arbitrary fresh amounts: a model of rounding."""

    def __init__(self, ctx, size=None):
        self.ctx, self.n = ctx, 0

    def f(self, name, a):
        a = obj(a).copy()
        for i in np.ndindex(*a.shape):
            a[i] = a[i] + self.ctx.real('e#%d' % self.n, hint=self.n % 7 - 3)
            self.n += 1
        return a

    def add(self, a):
        """Rounding errors put on an array by the harness."""
        return self.f('harness', a)

    def __enter__(self):
        shim.PERTURB[0] = self.f
        return self

    def __exit__(self, *a):
        shim.PERTURB[0] = None


def register_autograd():
    from autograd.extend import VSpace, Box
    from autograd.numpy.numpy_vspaces import ArrayVSpace
    from autograd.numpy.numpy_boxes import ArrayBox

    class SymVSpace(ArrayVSpace):
        def __init__(self, value):
            super().__init__(np.array(value, dtype=object))
    try:
        VSpace.register(Sym, lambda v: ArrayVSpace(np.array(v, dtype=object)))
        ArrayBox.register(Sym)
    except Exception:
        pass
