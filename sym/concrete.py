"""The same harness interface on ordinary floats: replays an assignment against the unmodified code."""
import math
import os
import traceback
from fractions import Fraction

import numpy as np

from .values import nice, ij, args, Arrays, args, whole, integer, laid_out

REPO = os.environ.get('VERIF_REPO', '/repo')


class NotMet(BaseException):
    """An assumption of the harness does not hold for these values."""


class ConcFn:
    def __init__(self, ctx, name, din, dout, style='batch', hint=None, kink=False):
        self.ctx, self.name, self.din, self.dout, self.style = ctx, name, din, dout, style
        self.rows = ctx.tables.get(name, [])
        self.calls = []
        from autograd.extend import primitive, defvjp

        @primitive
        def f(x, t=None, u=None):
            return self.value(x, t, u)
        defvjp(f, lambda ans, x, t=None, u=None: lambda g: self.pull(g, x, t, u), argnums=(0,))
        self.f = f

    def __call__(self, x, t=None, u=None):
        return self.f(x, t, u)

    def row(self, x, t, u):
        best, bd = None, None
        for r in self.rows:
            if not (same_tag(r['t'], t) and same_tag(r['u'], u)):
                continue
            d = max([abs(a - b) / (1 + abs(a) + abs(b)) for a, b in zip(r['x'], x)] or [0.0])
            if bd is None or d < bd:
                best, bd = r, d
        if best is None or bd > 1e-5:
            self.ctx.misses += 1
            y = [pseudo(self.name, j, x, t, u) for j in range(self.dout)]
            best = dict(x=list(x), t=t, u=u, y=y, J=None)
            self.rows.append(best)
        return best

    def value(self, x, t=None, u=None):
        x = np.asarray(x, dtype=float)
        flat = x.reshape(-1, self.din) if x.ndim else x.reshape(1, 1)
        if x.ndim > 2 or flat.shape[1] != self.din:
            raise ValueError('argument of shape %s for a function of %d variables' % (x.shape, self.din))
        self.calls.append((x, t, u))
        out = np.array([self.row(list(map(float, r)), t, u)['y'] for r in flat], dtype=float).reshape(-1, self.dout)
        return out[0] if self.style == 'vec' and x.ndim <= 1 else out

    def jac(self, r):
        if r['J'] is None:
            r['J'] = [[pseudo('D' + self.name, (a, b), r['x'], r['t'], r['u']) for b in range(self.din)] for a in range(self.dout)]
        return np.array(r['J'], dtype=float).reshape(self.dout, self.din)

    def pull(self, g, x, t=None, u=None):
        x = np.asarray(x, dtype=float)
        flat = x.reshape(-1, self.din)
        g = np.asarray(g, dtype=float).reshape(-1, self.dout)
        out = np.array([g[i] @ self.jac(self.row(list(map(float, flat[i])), t, u)) for i in range(flat.shape[0])])
        return out.reshape(x.shape)

    def at(self, x, t=None, u=None):
        return np.array(self.row([float(c) for c in np.ravel(x)], t, u)['y'], dtype=float)

    def jac_at(self, x, t=None, u=None):
        return self.jac(self.row([float(c) for c in np.ravel(x)], t, u))


def same_tag(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(b, np.ndarray):
        b = b.ravel().tolist()
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(same_tag(x, y) for x, y in zip(a, b))
    try:
        return abs(float(a) - float(b)) <= 1e-6 * (1 + abs(float(a)))
    except (TypeError, ValueError):
        return repr(a) == repr(b)


def pseudo(name, j, x, t, u):
    s = sum((i + 1.3) * c for i, c in enumerate(x))
    try:
        s += 0.7 * float(t or 0) + 0.3 * float(u or 0)
    except (TypeError, ValueError):
        pass
    h = sum(ord(c) for c in str(name) + str(j))
    return math.sin(s + h) + 0.1 * s


class ConcTransform:
    def __init__(self, ctx, name, din, dout, style='batch', spd=False, asym=False, small=False):
        self.ctx, self.name, self.din, self.dout = ctx, name, din, dout
        self.rows, self.calls = ctx.tables.get(name, []), []

    def __call__(self, func, state):
        m, P = np.asarray(state.mean, dtype=float), np.asarray(state.cov, dtype=float)
        v = np.asarray(func(m), dtype=float)
        key = list(v.ravel()) + list(m.ravel()) + list(P.ravel())
        best, bd = None, None
        for r in self.rows:
            k = r['v'] + r['m'] + r['P']
            if len(k) != len(key):
                continue
            sc = 1 + max([abs(a) for a in k] or [0])
            d = max(abs(a - b) / (1 + abs(a) + abs(b)) for a, b in zip(k, key))
            if bd is None or d < bd:
                best, bd = r, d
        if best is None or bd > 1e-4:
            self.ctx.misses += 1
            d = self.dout
            z = [pseudo(self.name, j, key, None, None) for j in range(d)]
            A = np.array([[pseudo(self.name, (i, j), key, None, None) for j in range(d)] for i in range(d)]) / 10
            best = dict(m=list(m.ravel()), P=list(P.ravel()), v=list(v.ravel()), z=z, S=(A @ A.T + np.eye(d)).ravel().tolist(),
                        C=[pseudo(self.name, ('c', i, j), key, None, None) / 10 for i in range(self.din) for j in range(d)])
            self.rows.append(best)
        row = {k: np.array(best[k], dtype=float) for k in ('z', 'S', 'C')}
        row['S'] = row['S'].reshape(self.dout, self.dout)
        row['C'] = row['C'].reshape(self.din, self.dout)
        self.calls.append(dict(m=m.copy(), P=P.copy(), row=row))
        return row['z'].copy(), row['S'].copy(), row['C'].copy()


class ConcSource:
    """Scripted random source: while it is installed the samplers of numpy.random are functions of the recorded stream."""

    def __init__(self, ctx, name='w'):
        self.ctx, self.name = ctx, name
        self.seeds = []
        self.reset()
        self.install()

    def reseed(self, seed=None):
        self.seeds.append(seed)
        if self.script is None:
            self.name, self.n = 'seed%s' % seed, 0

    def reset(self, script=None):
        self.n, self.script, self.calls = 0, script, []

    def z(self):
        i = self.n
        self.n += 1
        if self.script is not None:
            return float(self.script(i))
        return self.ctx.real('%s#%d' % (self.name, i))

    def draw(self, mean, cov, size=None, **kw):
        mean, cov = np.asarray(mean, dtype=float), np.asarray(cov, dtype=float)
        if mean.ndim != 1:
            raise ValueError('mean must be 1 dimensional')
        if cov.ndim != 2 or cov.shape[0] != cov.shape[1]:
            raise ValueError('cov must be 2 dimensional and square')
        if cov.shape[0] != mean.shape[0]:
            raise ValueError('mean and cov must have same length')
        shape = shape_of(size)
        L = psd_chol(cov)
        out = np.empty(shape + (mean.shape[0],))
        for i in np.ndindex(*shape):
            out[i] = mean + L @ np.array([self.z() for _ in range(mean.shape[0])])
        self.calls.append(('mvn', shape))
        return out

    def standard(self, shape):
        self.calls.append(('std', tuple(shape)))
        if not shape:
            return self.z()
        out = np.empty(shape)
        for i in np.ndindex(*shape):
            out[i] = self.z()
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        sh = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else shape_of(size)
        return np.asarray(loc) + np.asarray(scale) * self.standard(sh) if sh else loc + scale * self.standard(())

    def install(self):
        R = np.random
        src = self

        class Gen:
            multivariate_normal = staticmethod(lambda mean, cov, size=None, **k: src.draw(mean, cov, size))
            standard_normal = staticmethod(lambda size=None, **k: src.standard(shape_of(size)))
            normal = staticmethod(src.normal)
        self.ctx.patch(R, 'multivariate_normal', lambda mean, cov, size=None, *a, **k: src.draw(mean, cov, size))
        self.ctx.patch(R, 'normal', src.normal)
        self.ctx.patch(R, 'seed', self.reseed)
        self.ctx.patch(R, 'randn', lambda *sh: src.standard(tuple(sh)))
        self.ctx.patch(R, 'standard_normal', lambda size=None: src.standard(shape_of(size)))
        if hasattr(R, 'default_rng'):
            self.ctx.patch(R, 'default_rng', lambda *a, **k: Gen())
        import scipy.stats as st
        self.ctx.patch(st.multivariate_normal, 'rvs', lambda mean=None, cov=1, size=1, random_state=None: np.squeeze(
            src.draw(mean, cov, size if size != 1 else None)))


def shape_of(size):
    if size is None:
        return ()
    return (int(size),) if isinstance(size, (int, np.integer)) else tuple(int(s) for s in size)


def psd_chol(M):
    n = M.shape[0]
    keep = [i for i in range(n) if np.any(M[i] != 0)]
    L = np.zeros((n, n))
    if keep:
        L[np.ix_(keep, keep)] = np.linalg.cholesky(M[np.ix_(keep, keep)])
    return L


class ConcPerturb:
    """Results of the linear-algebra routines get small recorded errors (relative size 1e-9)."""

    def __init__(self, ctx):
        self.ctx, self.n = ctx, 0

    def f(self, a):
        a = np.array(a, dtype=float)
        sc = 1e-9 * (1 + np.max(np.abs(a))) if a.size else 0
        for i in np.ndindex(*a.shape):
            a[i] += sc * math.tanh(self.ctx.real('e#%d' % self.n, hint=self.n % 7 - 3))
            self.n += 1
        return a

    def add(self, a):
        return self.f(a)

    def __enter__(self):
        import sys
        import scipy.linalg as sl
        self.saved = []
        for mod in (np.linalg, sl):
            for name in ('solve', 'inv', 'cholesky', 'cho_solve', 'pinv', 'pinvh'):
                orig = getattr(mod, name, None)
                if orig is None:
                    continue
                g = (lambda orig: lambda *a, **k: self.f(orig(*a, **k)))(orig)
                for m in list(sys.modules.values()):
                    d = getattr(m, '__dict__', None)
                    if not isinstance(d, dict):
                        continue
                    mine = m is mod or str(d.get('__file__') or '').startswith(REPO + '/')
                    if mine and d.get(name) is orig:
                        self.saved.append((m, name, orig))
                        setattr(m, name, g)
        return self

    def __exit__(self, *a):
        for m, name, orig in reversed(self.saved):
            setattr(m, name, orig)


class ConcCtx(Arrays):
    symbolic = False

    def __init__(self, job):
        self.vals = {n: float(Fraction(x)) for n, x in job['values'].items()}
        self.seed = job.get('seed') if job.get('cut') or job.get('exc') else None      # a path that was left: the inputs it never reached take default values
        self.layout = job['params'].get('layout')
        self.tables = {}
        for t in job.get('tables', ()):
            self.tables[t['name']] = [dict(r) for r in t['rows']]
        self.failed = []
        self.observed = {}
        self.checked = 0
        self.misses = 0
        self.fns = []
        self.patched = []

    def patch(self, obj, name, value):
        self.patched.append((obj, name, getattr(obj, name)))
        setattr(obj, name, value)

    def cleanup(self):
        for o, n, v in reversed(self.patched):
            setattr(o, n, v)
        self.patched = []

    def fn(self, name, din, dout, style='batch', **kw):
        return ConcFn(self, name, din, dout, style, **kw)

    def transform(self, name, din, dout, **kw):
        return ConcTransform(self, name, din, dout, **kw)

    def source(self, name='w'):
        return ConcSource(self, name)

    def perturb(self):
        return ConcPerturb(self)

    def strict(self):
        pass

    def real(self, name, sign=None, hint=None, lo=None, hi=None):
        if name in self.vals:
            return self.vals[name]
        if self.seed is not None:
            return float(nice(name, sign, self.seed, 0, hint, lo, hi))
        if hint is not None:
            return float(hint)
        self.misses += 1
        return 0.75

    def _vec(self, name, n, **kw):
        h = kw.pop('hint', None)
        return np.array([self.real('%s%d' % (name, i + 1), hint=None if h is None else h[i], **kw) for i in range(n)], dtype=float)

    def _mat(self, name, n, m, **kw):
        h = kw.pop('hint', None)
        return np.array([[self.real(ij(name, i, j), hint=None if h is None else h[i][j], **kw) for j in range(m)] for i in range(n)],
                        dtype=float).reshape(n, m)

    @staticmethod
    def dominant(n):
        return [[2.5 + i + 2 * n - 2 if i == j and n > 3 else None for j in range(n)] for i in range(n)]

    def _sym(self, name, n, hint=None):
        out = np.empty((n, n))
        for i in range(n):
            for j in range(i, n):
                out[i, j] = out[j, i] = self.real(
                    ij(name, i, j), hint=hint[i][j] if hint is not None else (2.5 + i + (2 * n - 2 if n > 3 else 0) if i == j else None))
        return out

    def _spd(self, name, n, scale=1):
        L = np.zeros((n, n))
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = self.real('%s_l%d%d' % (name, i + 1, j + 1), sign='+' if i == j else None)
        return (L @ L.T) * scale

    def assume(self, b, why=None):
        if not b:
            raise NotMet(why or 'assumption')

    def assume_pd(self, M, why=None):
        try:
            np.linalg.cholesky((np.asarray(M, dtype=float) + np.asarray(M, dtype=float).T) / 2)
        except np.linalg.LinAlgError:
            raise NotMet(why or 'positive definite')

    def eq(self, label, got, exp, tol=1e-6):
        self.checked += 1
        try:
            g = np.asarray(got, dtype=float)
        except (TypeError, ValueError):
            self.failed.append(dict(label=label, note='not numeric: %r' % (got,)))
            return
        e = np.asarray(exp, dtype=float)
        self.observe(label, g)
        if g.shape != e.shape:
            self.failed.append(dict(label=label, note='shape %s instead of %s' % (g.shape, e.shape)))
            return
        if not g.size:
            return
        sc = 1 + np.nanmax(np.abs(e)) if np.any(np.isfinite(e)) else 1.0
        bad = ~(np.abs(g - e) <= tol * sc)
        bad &= ~(np.isnan(g) & np.isnan(e))
        if np.any(bad):
            i = tuple(np.argwhere(bad)[0])
            gross = bool(np.any(~(np.abs(g - e) <= max(1e-3, tol) * sc) & bad))
            self.failed.append(dict(label=label, gross=gross, got=g.ravel()[:400].tolist(), exp=e.ravel()[:400].tolist(), note='got %s, should be %s (first at %s: %r vs %r)' % (
                np.array2string(g, threshold=20), np.array2string(e, threshold=20), list(map(int, i)), float(g[i]), float(e[i]))))

    def true(self, label, cond, note=None):
        self.checked += 1
        if not bool(np.all(cond)):
            self.failed.append(dict(label=label, note=note or 'condition is false'))

    def fail(self, label, note=None):
        self.true(label, False, note)

    def observe(self, label, got):
        try:
            self.observed[label] = np.array(got, dtype=float)
        except (TypeError, ValueError):
            pass

    def decide(self, cond):
        return bool(cond)

    def choose(self, name, n):
        v = self.real(name, hint=0)
        for i in range(n - 1):
            if v < i + 0.5:
                return i
        return n - 1

    def same(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * (1 + np.abs(b))))

    def inv(self, M):
        return np.linalg.inv(np.asarray(M, dtype=float))

    def det(self, M):
        return np.linalg.det(np.asarray(M, dtype=float))

    def minors(self, M):
        M = np.asarray(M, dtype=float)
        return [np.linalg.det(M[:k, :k]) for k in range(1, M.shape[0] + 1)]

    def sqrt(self, x):
        return math.sqrt(max(float(x), 0.0))

    def log(self, x):
        return math.log(float(x))

    def sin(self, x):
        return math.sin(float(x))

    def cos(self, x):
        return math.cos(float(x))

    def atan2(self, y, x):
        return math.atan2(float(y), float(x))

    def const(self, x):
        return float(x)

    def array(self, x):
        return np.array(x, dtype=float)
