"""Symbolic versions of the numpy / scipy / math routines that cannot run on symbolic scalars.

`install()` must run before autograd, scipy.stats users and the repository are imported.  Every replacement falls
back to the original routine when no argument is symbolic.  The mathematical contract of each routine is encoded over
the reals; which triangle a routine reads and when it raises LinAlgError follow the documentation.
"""
import builtins
import itertools
import math
import numbers

import numpy as np

from . import core
from .core import Sym, SymBool, printed, coerce, conj, disj, Unsupported, HOOKS, ZERO, ONE

LinAlgError = np.linalg.LinAlgError
ORIG = {}
SYMBOLIC = [True]
IN_PATH = [False]            # roots of constants stay symbolic only while a path is executed (not at import)
PERTURB = [None]             # C26: function(name, array) -> array, models rounding of a numerical routine
RNG = [None]                 # stub of the random source: an object with normal(shape) -> array
STRICT_SINGULAR = [False]
CALLS = {}


def reset():
    PERTURB[0] = RNG[0] = None
    STRICT_SINGULAR[0] = False


def is_sym(x):
    if isinstance(x, (Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym(y) for y in x)
    return False


def obj(a):
    """An object array whose elements are Syms."""
    a = np.asarray(a)
    if a.dtype == object:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            x = a[i]
            if isinstance(x, np.ndarray):
                x = x.item()
            y = coerce(x)
            if y is None:
                raise Unsupported('cannot treat %s as a number' % type(x))
            out[i] = y
        return out
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        out[i] = coerce(a[i].item() if hasattr(a[i], 'item') else a[i])
    return out


def scalar(x):
    if isinstance(x, np.ndarray):
        x = x.item()
    return coerce(x)


def empty(shape):
    return np.empty(shape, dtype=object)


def zeros(shape):
    a = np.empty(shape, dtype=object)
    a.fill(ZERO)
    return a


def eye(n):
    a = zeros((n, n))
    for i in range(n):
        a[i, i] = ONE
    return a


# ------------------------------------------------------------------ exact linear algebra
def mat_det(M):
    n = M.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return coerce(M[0, 0])
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    if n <= 4:
        # expansion along the row with most zeros
        best = max(range(n), key=lambda i: sum(1 for j in range(n) if not coerce(M[i, j]).n))
        tot = ZERO
        for j in range(n):
            x = coerce(M[best, j])
            if not x.n:
                continue
            sub = np.delete(np.delete(M, best, 0), j, 1)
            t = x * mat_det(sub)
            tot = tot + t if (best + j) % 2 == 0 else tot - t
        return tot
    # fraction-free elimination
    A = obj(M).copy()
    sign, prev = 1, ONE
    for k in range(n - 1):
        p = next((i for i in range(k, n) if A[i, k].n), None)
        if p is None:
            return ZERO
        if p != k:
            A[[k, p]] = A[[p, k]]
            sign = -sign
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                A[i, j] = (A[i, j] * A[k, k] - A[i, k] * A[k, j]) / prev
        prev = A[k, k]
    return A[n - 1, n - 1] * sign


def blocks(M):
    """Index sets of the connected components of the nonzero pattern (M block diagonal after permutation)."""
    n = M.shape[0]
    left, out = set(range(n)), []
    while left:
        comp, todo = set(), [min(left)]
        while todo:
            i = todo.pop()
            if i in comp:
                continue
            comp.add(i)
            todo += [j for j in range(n) if j not in comp and (M[i, j].n or M[j, i].n)]
        left -= comp
        out.append(sorted(comp))
    return out


def mat_inv(M, singular=True):
    M = obj(M)
    n = M.shape[0]
    bl = blocks(M)
    if len(bl) > 1:
        R = zeros((n, n))
        for b in bl:
            ix = np.ix_(b, b)
            R[ix] = mat_inv(M[ix], singular)
        return R
    d = mat_det(M)
    if not d.n:
        raise LinAlgError('Singular matrix')
    if singular and STRICT_SINGULAR[0] and bool(d == 0):
        raise LinAlgError('Singular matrix')
    if n == 1:
        R = empty((1, 1))
        R[0, 0] = ONE / d
        return R
    if n <= 4:
        R = empty((n, n))
        for i in range(n):
            for j in range(n):
                c = mat_det(np.delete(np.delete(M, i, 0), j, 1))
                R[j, i] = (c if (i + j) % 2 == 0 else -c) / d
        return R
    return mat_solve_elim(M, eye(n))


def mat_solve_elim(A, B):
    A, B = obj(A).copy(), obj(B).copy()
    n = A.shape[0]
    for k in range(n):
        p = next((i for i in range(k, n) if A[i, k].n and A[i, k].is_const), None)
        if p is None:
            p = next((i for i in range(k, n) if A[i, k].n), None)
        if p is None:
            raise LinAlgError('Singular matrix')
        if p != k:
            A[[k, p]] = A[[p, k]]
            B[[k, p]] = B[[p, k]]
        piv = ONE / A[k, k]
        for i in range(n):
            if i == k or not A[i, k].n:
                continue
            f = A[i, k] * piv
            for j in range(k, n):
                if A[k, j].n:
                    A[i, j] = A[i, j] - f * A[k, j]
            for j in range(B.shape[1]):
                if B[k, j].n:
                    B[i, j] = B[i, j] - f * B[k, j]
    for k in range(n):
        piv = ONE / A[k, k]
        for j in range(B.shape[1]):
            B[k, j] = B[k, j] * piv
    return B


def mat_solve(A, b):
    A, b = obj(A), obj(b)
    vec = b.ndim == 1
    if vec:
        b = b.reshape(-1, 1)
    if A.ndim != 2 or A.shape[0] != A.shape[1]:
        raise LinAlgError('Last 2 dimensions of the array must be square')
    if A.shape[0] != b.shape[0]:
        raise ValueError('shapes do not match')
    if A.shape[0] <= 4 or len(blocks(A)) > 1:
        x = mat_inv(A) @ b
    else:
        x = mat_solve_elim(A, b)
    return x[:, 0] if vec else x


def from_triangle(a, lower):
    a = obj(a)
    n = a.shape[0]
    out = a.copy()
    for i in range(n):
        for j in range(i):
            if lower:
                out[j, i] = a[i, j]
            else:
                out[i, j] = a[j, i]
    return out


def is_pd(M):
    """Decide (branching when symbolic) whether the symmetric matrix M is positive definite."""
    conds = []
    for b in blocks(M):
        S = M[np.ix_(b, b)]
        for k in range(1, len(b) + 1):
            conds.append(mat_det(S[:k, :k]) > 0)
    return bool(conj(conds))


def square(a, what):
    if a.ndim != 2 or a.shape[0] != a.shape[1]:
        if what == 'numpy':
            raise LinAlgError('Last 2 dimensions of the array must be square')
        raise ValueError('Input array is expected to be square but has the shape: %s.' % (a.shape,))


def chol_lower(M):
    """Lower Cholesky factor of a symmetric matrix known to be positive definite."""
    n = M.shape[0]
    L = zeros((n, n))
    for j in range(n):
        s = M[j, j]
        for k in range(j):
            s = s - L[j, k] * L[j, k]
        L[j, j] = s.sqrt()
        for i in range(j + 1, n):
            t = M[i, j]
            for k in range(j):
                t = t - L[i, k] * L[j, k]
            L[i, j] = t / L[j, j]
    return L


def perturb(name, a):
    return PERTURB[0](name, a) if PERTURB[0] is not None else a


def check_shape_1x1(a):
    a = np.asarray(a)
    if a.ndim < 2:
        raise LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % a.ndim)


def np_cholesky(a):
    check_shape_1x1(a)
    a = np.asarray(a)
    if a.ndim > 2:
        out = empty(a.shape)
        for i in np.ndindex(*a.shape[:-2]):
            out[i] = np_cholesky(a[i])
        return out
    square(a, 'numpy')
    M = from_triangle(a, True)
    if not is_pd(M):
        raise LinAlgError('Matrix is not positive definite')
    return perturb('chol', LazyChol(M, True))


class LazyChol:
    """Not used as a value: see lazy_chol."""

    def __new__(cls, M, lower):
        L = chol_lower(M)
        return L if lower else L.T.copy()


def reuse(given, allowed, result):
    """LAPACK works in place when the caller allows it and the array is Fortran ordered (as every vector is)."""
    a = np.asarray(given)
    if allowed and a.flags.f_contiguous and a.flags.writeable and a.dtype == object:
        a[...] = result if result.shape == a.shape else result.reshape(a.shape)
        return a
    return result


def lu_packed(M):
    """L and U in one matrix (no row exchanges: which rows LAPACK exchanges is not modelled)."""
    A = M.copy()
    n = A.shape[0]
    for k in range(n):
        if A[k, k].n:
            for i in range(k + 1, n):
                A[i, k] = A[i, k] / A[k, k]
                for j in range(k + 1, n):
                    A[i, j] = A[i, j] - A[i, k] * A[k, j]
    return A


def sp_cholesky(a, lower=False, overwrite_a=False, check_finite=True):
    given = a
    a = np.atleast_2d(np.asarray(a))
    if a.ndim != 2:
        raise ValueError('Input array needs to be 2D but received a %dd-array.' % a.ndim)
    square(a, 'scipy')
    M = from_triangle(a, lower)
    if not is_pd(M):
        reuse(given, overwrite_a, lu_packed(obj(a)))
        raise LinAlgError('leading minor of the array is not positive definite')
    return reuse(given, overwrite_a, np.asfortranarray(perturb('chol', LazyChol(M, lower))))


def np_solve(a, b):
    a = np.asarray(a)
    if a.ndim > 2:
        b = np.asarray(b)
        r = [np_solve(a[i], b[i] if b.ndim == a.ndim else b) for i in range(a.shape[0])]
        return np.array(r, dtype=object)
    check_shape_1x1(a)
    return perturb('solve', mat_solve(a, b))


def sp_solve(a, b, sym_pos=False, lower=False, overwrite_a=False, overwrite_b=False, debug=None, check_finite=True,
             assume_a='gen', transposed=False):
    ga, gb = a, b
    a, b = np.atleast_2d(np.asarray(a)), np.atleast_1d(np.asarray(b))
    square(a, 'scipy')
    if sym_pos:
        assume_a = 'pos'
    a = obj(a)
    packed = lu_packed(a) if overwrite_a else None
    if assume_a == 'pos':
        a = from_triangle(a, lower)
        if not is_pd(a):
            if overwrite_a:
                reuse(ga, True, packed)
            raise LinAlgError('Matrix is singular.')
    elif assume_a in ('sym', 'her'):
        a = from_triangle(a, lower)
    elif assume_a != 'gen':
        raise ValueError('%s is not a recognized matrix structure' % assume_a)
    if transposed and assume_a == 'gen':
        a = a.T
    if a.shape[0] != b.shape[0]:
        if not (a.shape[0] == 1 and b.size != 0):
            raise ValueError('Input b has to have same number of rows as input a')
    b = obj(b)
    x = np.asfortranarray(perturb('solve', mat_solve(a, b)))
    if overwrite_a:
        reuse(ga, True, packed)
    return reuse(gb, overwrite_b, x) if overwrite_b else x


def np_inv(a):
    a = np.asarray(a)
    check_shape_1x1(a)
    if a.ndim > 2:
        return np.array([np_inv(x) for x in a], dtype=object)
    square(a, 'numpy')
    return perturb('inv', mat_inv(a))


def np_det(a):
    a = np.asarray(a)
    check_shape_1x1(a)
    if a.ndim > 2:
        return np.array([np_det(x) for x in a], dtype=object)
    square(a, 'numpy')
    return mat_det(obj(a))


def np_matrix_rank(A, tol=None, hermitian=False):
    """Exact rank (no tolerance)."""
    M = obj(A).copy()
    if M.ndim < 2:
        return int(any(bool(v != 0) for v in np.atleast_1d(M)))
    if M.ndim > 2:
        return np.array([np_matrix_rank(m) for m in M])
    r = 0
    for j in range(M.shape[1]):
        p = next((i for i in range(r, M.shape[0]) if bool(M[i, j] != 0)), None)
        if p is None:
            continue
        M[[r, p]] = M[[p, r]]
        for i in range(r + 1, M.shape[0]):
            M[i] = M[i] - M[i, j] / M[r, j] * M[r]
        r += 1
    return r


def np_slogdet(a):
    d = np_det(a)
    if bool(d > 0):
        return ONE, d.log()
    if bool(d < 0):
        return -ONE, (-d).log()
    return ZERO, -math.inf


def np_norm(x, ord=None, axis=None, keepdims=False):
    x = obj(x)
    if axis is None and ord in (None, 'fro') or (ord == 2 and x.ndim == 1):
        s = ZERO
        for v in x.ravel():
            s = s + v * v
        r = s.sqrt()
        return r
    if axis is not None and ord in (None, 2) and isinstance(axis, int):
        return np_sqrt((x * x).sum(axis=axis, keepdims=keepdims))
    if x.ndim == 1 and ord == 1:
        return sum((abs(v) for v in x), ZERO)
    if x.ndim == 1 and ord == math.inf:
        return np_max(np.array([abs(v) for v in x], dtype=object))
    raise Unsupported('norm with ord=%r axis=%r' % (ord, axis))


def eig_sym(a, lower=True, vectors=False):
    M = from_triangle(a, lower)
    n = M.shape[0]
    bl = blocks(M)
    if all(len(b) == 1 for b in bl) and not vectors:
        w = [M[i, i] for i in range(n)]
        return np.array(sort_syms(w), dtype=object)
    if n == 1:
        return (M[0].copy(), eye(1)) if vectors else M[0].copy()
    if n == 2 and not vectors:
        h = (M[0, 0] + M[1, 1]) / 2
        r = (((M[0, 0] - M[1, 1]) / 2) ** 2 + M[0, 1] ** 2).sqrt()
        return np.array([h - r, h + r], dtype=object)
    if vectors and all(len(b) == 1 for b in bl):
        order = sorted_index([M[i, i] for i in range(n)])
        V = zeros((n, n))
        for c, i in enumerate(order):
            V[i, c] = ONE
        return np.array([M[i, i] for i in order], dtype=object), V
    if vectors and n == 2:
        h = (M[0, 0] + M[1, 1]) / 2
        r = (((M[0, 0] - M[1, 1]) / 2) ** 2 + M[0, 1] ** 2).sqrt()
        w = [h - r, h + r]
        V = empty((2, 2))
        for c in range(2):
            x, y = M[0, 1], w[c] - M[0, 0]
            k = (x * x + y * y).sqrt()
            V[0, c], V[1, c] = x / k, y / k
        return np.array(w, dtype=object), V
    raise Unsupported('eigenvalues of a %dx%d symbolic matrix' % (n, n))


def sorted_index(xs):
    idx = []
    for i, x in enumerate(xs):
        k = len(idx)
        while k > 0 and bool(x < xs[idx[k - 1]]):
            k -= 1
        idx.insert(k, i)
    return idx


def sort_syms(xs):
    return [xs[i] for i in sorted_index(xs)]


class PdOnly:
    """eigvalsh used to test definiteness: a vector whose minimum decides positive definiteness."""


def np_eigvalsh(a, UPLO='L'):
    return eig_sym(obj(a), UPLO.upper() == 'L')


def np_eigh(a, UPLO='L'):
    return eig_sym(obj(a), UPLO.upper() == 'L', True)


def np_pinv(a, *args, **kw):
    a = obj(a)
    if a.shape[0] == a.shape[1]:
        return mat_inv(a)
    if a.shape[0] > a.shape[1]:
        return mat_inv(a.T @ a) @ a.T
    return a.T @ mat_inv(a @ a.T)


def np_lstsq(a, b, rcond=None):
    a = obj(a)
    x = mat_solve(a, b) if a.shape[0] == a.shape[1] else np_pinv(a) @ obj(b)
    return x, np.array([]), a.shape[1], np.array([])


def np_matrix_power(a, n):
    a = obj(a)
    if n < 0:
        return np_matrix_power(mat_inv(a), -n)
    r = eye(a.shape[0])
    for _ in range(n):
        r = r @ a
    return r


def np_multi_dot(arrays, out=None):
    r = obj(arrays[0])
    for a in arrays[1:]:
        r = r @ obj(a)
    return r


def sp_solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, overwrite_b=False, debug=None, check_finite=True):
    gb = b
    a, b = obj(a), obj(b)
    n = a.shape[0]
    A = zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i == j:
                A[i, j] = ONE if unit_diagonal else a[i, j]
            elif (i > j) == bool(lower):
                A[i, j] = a[i, j]
    if trans in (1, 2, 'T', 'C'):
        A, lower = A.T, not lower
    vec = b.ndim == 1
    B = b.reshape(n, -1)
    X = empty(B.shape)
    order = range(n) if lower else range(n - 1, -1, -1)
    for c in range(B.shape[1]):
        for i in order:
            s = B[i, c]
            for j in (range(i) if lower else range(i + 1, n)):
                s = s - A[i, j] * X[j, c]
            X[i, c] = s / A[i, i]
    return reuse(gb, overwrite_b, np.asfortranarray(X[:, 0].copy() if vec else X))


def sp_cho_factor(a, lower=False, overwrite_a=False, check_finite=True):
    return sp_cholesky(a, lower=lower, overwrite_a=overwrite_a), lower


def sp_cho_solve(c_and_lower, b, overwrite_b=False, check_finite=True):
    c, lower = c_and_lower
    gb = b
    c, b = obj(c), obj(b)
    n = c.shape[0]
    L = zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            L[i, j] = c[i, j] if lower else c[j, i]
    return reuse(gb, overwrite_b, np.asfortranarray(mat_solve(L @ L.T, b)))


def sp_inv(a, overwrite_a=False, check_finite=True):
    given = a
    a = np.atleast_2d(np.asarray(a))
    square(a, 'scipy')
    return reuse(given, overwrite_a, np.asfortranarray(perturb('inv', mat_inv(obj(a)))))


# ------------------------------------------------------------------ array routines
def np_einsum(sub, *ops, **kw):
    if not isinstance(sub, str):
        raise Unsupported('einsum sublist format')
    sub = sub.replace(' ', '')
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        letters = [c for c in ins if c.isalpha()]
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    ops = [obj(o) for o in ops]
    if any('.' in s for s in ins):
        pool = [c for c in 'ABCDEFGHIJKLMNOP' if c not in sub]
        ell = max(o.ndim - len(s.replace('...', '')) for s, o in zip(ins, ops))
        full = ''.join(pool[:ell])
        ins = [s.replace('...', full[ell - (o.ndim - len(s.replace('...', ''))):] if '...' in s else '') for s, o in zip(ins, ops)]
        out = out.replace('...', full) if '...' in out or '->' in sub else full + out
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError('operand has wrong number of dimensions for einsum')
        for c, d in zip(s, o.shape):
            if d != 1 or c not in dims:
                if dims.get(c, 1) not in (1, d):
                    raise ValueError('operands could not be broadcast together in einsum')
                dims[c] = max(d, dims.get(c, 1))
    summed = [c for c in dims if c not in out]
    res = empty([dims[c] for c in out])
    for idx in np.ndindex(*res.shape):
        env = dict(zip(out, idx))
        tot = ZERO
        for sidx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sidx))
            p = ONE
            for s, o in zip(ins, ops):
                p = p * o[tuple(env[c] if o.shape[q] > 1 else 0 for q, c in enumerate(s))]
                if not p.n:
                    break
            tot = tot + p
        res[idx] = tot
    return res if res.ndim else res.item()


def np_cov(m, y=None, rowvar=True, bias=False, ddof=None, fweights=None, aweights=None, dtype=None):
    if fweights is not None or aweights is not None:
        raise Unsupported('weighted np.cov')
    X = np.atleast_2d(obj(m))
    if not rowvar and X.shape[0] != 1:
        X = X.T
    if y is not None:
        Y = np.atleast_2d(obj(y))
        if not rowvar and Y.shape[0] != 1:
            Y = Y.T
        X = np.concatenate((X, Y), axis=0)
    n = X.shape[1]
    if ddof is None:
        ddof = 0 if bias else 1
    d = X - (X.sum(axis=1) / n)[:, None]
    r = (d @ d.T) / (n - ddof)
    return np.squeeze(r)


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    a = obj(a)
    n = a.size if axis is None else (np.prod([a.shape[x] for x in axis]) if isinstance(axis, tuple) else a.shape[axis])
    m = a.sum(axis=axis, keepdims=True) / int(n)
    return ((a - m) ** 2).sum(axis=axis, keepdims=keepdims) / (int(n) - ddof)


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **kw):
    return np_sqrt(np_var(a, axis=axis, ddof=ddof, keepdims=keepdims))


def elementwise(f):
    def g(x, *args, **kw):
        a = np.asarray(x)
        if a.ndim == 0:
            return f(scalar(a))
        out = empty(a.shape)
        for i in np.ndindex(*a.shape):
            out[i] = f(scalar(a[i]))
        return out
    return g


np_sqrt_sym = elementwise(lambda x: x.sqrt())


def np_sqrt(x, *args, **kw):
    """Exact for constants too: sqrt(3) stays an algebraic number."""
    if is_sym(x) and not kw:
        return np_sqrt_sym(x)
    if SYMBOLIC[0] and IN_PATH[0] and not kw and not args and isinstance(x, (int, float)) and not isinstance(x, bool) and 0 <= x < 1e15:
        return coerce(x).sqrt()
    return ORIG['np.sqrt'](x, *args, **kw)


def boolelem(f):
    def g(x, *args, **kw):
        a = np.asarray(x)
        out = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(*a.shape):
            out[i] = f(a[i])
        return out if a.ndim else bool(out)
    return g


def within(x, y, rtol, atol):
    """|x - y| <= atol + rtol |y| without deciding signs (for rtol >= 0)."""
    r, a, d = coerce(rtol), coerce(atol), coerce(x) - coerce(y)
    out = []
    for e in (d, -d):
        p, q = e <= a + r * y, e <= a - r * y
        out.append(p if p is True or q is False else q if q is True or p is False else p | q)
    return out


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(obj(a), obj(b))
    cs = []
    for x, y in zip(a.ravel(), b.ravel()):
        cs += within(x, y, rtol, atol)
    return bool(conj(cs))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = np.broadcast_arrays(obj(a), obj(b))
    out = np.empty(a.shape, dtype=bool)
    for i in np.ndindex(*a.shape):
        out[i] = bool(conj(within(a[i], b[i], rtol, atol)))
    return out if out.ndim else bool(out)


def np_array_equal(a, b, equal_nan=False):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return bool(conj([x == y for x, y in zip(a.ravel(), b.ravel())]))


def pick(better):
    def g(a, axis=None, out=None, keepdims=False, **kw):
        a = obj(a)
        if axis is None:
            xs = list(a.ravel())
            best = xs[0]
            for x in xs[1:]:
                if better(x, best):
                    best = x
            return best
        moved = np.moveaxis(a, axis, 0)
        res = empty(moved.shape[1:])
        for i in np.ndindex(*res.shape):
            best = moved[(0,) + i]
            for k in range(1, moved.shape[0]):
                if better(moved[(k,) + i], best):
                    best = moved[(k,) + i]
            res[i] = best
        return np.expand_dims(res, axis) if keepdims else res
    return g


np_max = pick(lambda x, b: bool(x > b))
np_min = pick(lambda x, b: bool(x < b))


def np_logaddexp(a, b):
    a, b = np.broadcast_arrays(obj(a), obj(b))
    out = empty(a.shape)
    for i in np.ndindex(*a.shape):
        out[i] = (a[i].exp() + b[i].exp()).log()
    return out if out.ndim else out.item()


def np_clip(a, lo=None, hi=None, **kw):
    def f(x):
        if lo is not None and bool(x < lo):
            return coerce(lo)
        if hi is not None and bool(x > hi):
            return coerce(hi)
        return x
    return elementwise(f)(a)


def np_sign(x):
    def f(v):
        if bool(v > 0):
            return ONE
        return -ONE if bool(v < 0) else ZERO
    return elementwise(f)(x)


def np_average(a, axis=None, weights=None, returned=False):
    a = obj(a)
    if weights is None:
        return a.mean(axis=axis)
    w = obj(weights)
    if w.shape != a.shape:
        sh = [1] * a.ndim
        sh[axis] = w.shape[0]
        w = w.reshape(sh)
    return (a * w).sum(axis=axis) / (w + a * 0).sum(axis=axis)


def np_block_kron(a, b):
    a, b = np.atleast_2d(obj(a)), np.atleast_2d(obj(b))
    r = empty((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
    for i in np.ndindex(*a.shape):
        r[i[0] * b.shape[0]:(i[0] + 1) * b.shape[0], i[1] * b.shape[1]:(i[1] + 1) * b.shape[1]] = b * a[i]
    return r


# ------------------------------------------------------------------ distributions
def logpdf(x, mean=None, cov=1, allow_singular=False):
    cov = obj(cov)
    mean = None if mean is None else obj(mean)
    if mean is None:
        dim = 1 if cov.ndim < 2 else cov.shape[0]
        mean = zeros((dim,))
    elif cov.ndim < 2:
        dim = mean.size
    else:
        dim = cov.shape[0]
    mean = mean.reshape(-1) if mean.ndim <= 1 else mean
    if mean.ndim != 1 or mean.shape[0] != dim:
        raise ValueError("Array 'mean' must be a vector of length %d." % dim)
    if cov.ndim == 0:
        cov = eye(dim) * cov.item()
    elif cov.ndim == 1:
        cov = np.diag(cov) if dim == cov.shape[0] else eye(dim) * cov[0]
    if cov.shape != (dim, dim):
        raise ValueError("Array 'cov' must be square")
    x = obj(x)
    if x.ndim == 0:
        x = x.reshape(1)
    elif x.ndim == 1 and dim == 1:
        x = x[:, None]
    cov = from_triangle(cov, True)
    if not is_pd(cov):
        raise Unsupported('log density of a covariance that is not positive definite')
    P = mat_inv(cov)
    ld = mat_det(cov).log()
    d = x - mean
    flat = d.reshape(-1, dim)
    out = []
    for r in flat:
        q = ZERO
        for i in range(dim):
            for j in range(dim):
                q = q + r[i] * P[i, j] * r[j]
        out.append(-(coerce(LOG2PI) * dim + ld + q) / 2)
    res = np.array(out + [None], dtype=object)[:-1]
    if d.ndim == 1:
        return res[0]
    res = res.reshape(d.shape[:-1])
    return res[0] if res.shape == (1,) else res


LOG2PI = math.log(2 * math.pi)


def normal_logpdf(x, loc=0, scale=1):
    z = (x - loc) / scale
    return -(z * z + LOG2PI) / 2 - np_log(scale)


def np_log(x):
    return elementwise(lambda v: v.log())(x)


def mvn_sample(mean=None, cov=None, size=None, **kw):
    """mean + L z for the Cholesky factor L of cov: z is what the random source returns."""
    mean, cov = obj(mean), obj(cov)
    if mean.ndim != 1:
        raise ValueError('mean must be 1 dimensional')
    if cov.ndim != 2 or cov.shape[0] != cov.shape[1]:
        raise ValueError('cov must be 2 dimensional and square')
    if cov.shape[0] != mean.shape[0]:
        raise ValueError('mean and cov must have same length')
    if size is None:
        shape = ()
    elif isinstance(size, (int, np.integer)):
        shape = (int(size),)
    else:
        shape = tuple(int(s) for s in size)
    n = mean.shape[0]
    src = RNG[0]
    if src is None:
        raise Unsupported('random draw without a random-source stub')
    z = src.draw(mean, cov, shape)
    return z


def normal_sample(loc=0.0, scale=1.0, size=None):
    if RNG[0] is None:
        raise Unsupported('random draw without a random-source stub')
    if size is None:
        sh = np.broadcast(obj(loc), obj(scale)).shape
    else:
        sh = (size,) if isinstance(size, (int, np.integer)) else tuple(size)
    z = RNG[0].standard(sh)
    return obj(loc) + obj(scale) * z if sh else scalar(loc) + scalar(scale) * z


# ------------------------------------------------------------------ installation
def wrap(mod, name, f, key, always=False):
    if not hasattr(mod, name):
        return
    orig = getattr(mod, name)
    ORIG[key] = orig

    def g(*args, **kw):
        if always or any(is_sym(a) for a in args) or (kw and any(is_sym(a) for a in kw.values())):
            CALLS[key] = CALLS.get(key, 0) + 1
            return f(*args, **kw)
        return orig(*args, **kw)
    g.__name__ = name
    g.__wrapped__ = orig
    try:
        setattr(mod, name, g)
    except (AttributeError, TypeError):
        pass


def ctor(name, fill):
    orig = getattr(np, name)
    ORIG['np.' + name] = orig

    def g(*args, **kw):
        dt = kw.get('dtype')
        r = orig(*args, **kw)
        if SYMBOLIC[0] and isinstance(r, np.ndarray) and r.dtype.kind == 'f':
            o = ORIG['np.empty'](r.shape, dtype=object)
            if name in ('zeros', 'zeros_like', 'empty', 'empty_like'):
                o.fill(ZERO)
            elif name in ('ones', 'ones_like'):
                o.fill(ONE)
            else:
                for i in np.ndindex(*r.shape):
                    o[i] = coerce(float(r[i]))
            return o
        return r
    g.__name__ = name
    setattr(np, name, g)


def conv(name):
    """np.array / np.asarray: keep symbolic values when a float dtype is requested."""
    orig = getattr(np, name)
    ORIG['np.' + name] = orig

    def g(x, *args, **kw):
        dt = kw.get('dtype', args[0] if args else None)
        if dt is not None and dt is not object and is_sym_deep(x):
            try:
                kind = np.dtype(dt).kind
            except TypeError:
                kind = 'f'
            if kind in 'fc':
                kw = dict(kw)
                kw['dtype'] = object
                return orig(x, *args[1:], **kw)
        return orig(x, *args, **kw)
    g.__name__ = name
    setattr(np, name, g)


def is_sym_deep(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(is_sym_deep(y) for y in x)
    return False


class FloatMeta(type):
    def __call__(cls, *a):
        if a and is_sym(a[0]):
            return scalar(a[0])
        if a and isinstance(a[0], str) and '<sym' in a[0] and ':' not in a[0] and printed(a[0]) is not None:
            return printed(a[0])
        return builtins.float(*a)

    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))


class RepoFloat(np.float64, metaclass=FloatMeta):
    """What `float` means in the repository's modules: as a function it keeps symbolic values, as a dtype it is float64."""


for _n in ('fromhex', 'hex'):
    setattr(RepoFloat, _n, getattr(builtins.float, _n))


def repo_floats(root):
    from importlib.machinery import SourceFileLoader
    import os
    orig, root = SourceFileLoader.exec_module, os.path.join(os.path.realpath(root), '')

    def exec_module(self, module):
        if os.path.realpath(self.path).startswith(root):
            module.__dict__['float'] = RepoFloat
        return orig(self, module)
    SourceFileLoader.exec_module = exec_module


def install():
    import scipy
    import scipy.linalg
    import scipy.stats
    L = np.linalg
    for name, f in dict(cholesky=np_cholesky, solve=np_solve, inv=np_inv, det=np_det, slogdet=np_slogdet, norm=np_norm, matrix_rank=np_matrix_rank,
                        eigvalsh=np_eigvalsh, eigh=np_eigh, pinv=np_pinv, lstsq=np_lstsq, matrix_power=np_matrix_power,
                        multi_dot=np_multi_dot).items():
        wrap(L, name, f, 'np.linalg.' + name)
    wrap(L, 'eigvals', lambda a: eig_nonsym(a), 'np.linalg.eigvals')
    S = scipy.linalg
    for name, f in dict(cholesky=sp_cholesky, solve=sp_solve, inv=sp_inv, det=lambda a, **k: np_det(a), norm=lambda a, *x, **k: np_norm(a, *x),
                        solve_triangular=sp_solve_triangular, cho_factor=sp_cho_factor, cho_solve=sp_cho_solve,
                        pinv=np_pinv, pinvh=np_pinv, lstsq=np_lstsq, eigvalsh=lambda a, *x, **k: np_eigvalsh(a),
                        eigh=lambda a, *x, **k: np_eigh(a)).items():
        wrap(S, name, f, 'scipy.linalg.' + name)
    N = np
    for name, f in dict(einsum=np_einsum, cov=np_cov, var=np_var, std=np_std, allclose=np_allclose, isclose=np_isclose,
                        array_equal=np_array_equal, logaddexp=np_logaddexp, clip=np_clip, sign=np_sign,
                        average=np_average, kron=np_block_kron,
                        log1p=elementwise(lambda v: v.log1p()), expm1=elementwise(lambda v: v.exp() - 1),
                        hypot=lambda a, b: np_sqrt(obj(a) ** 2 + obj(b) ** 2),
                        deg2rad=lambda a: obj(a) * (math.pi / 180), radians=lambda a: obj(a) * (math.pi / 180),
                        rad2deg=lambda a: obj(a) * (180 / math.pi)).items():
        wrap(N, name, f, 'np.' + name)
    for name, v in (('isnan', False), ('isinf', False), ('isfinite', True)):
        wrap(N, name, boolelem(lambda x, v=v: v if isinstance(x, Sym) else bool(getattr(math, 'isfinite' if v else 'isnan')(x))),
             'np.' + name)
    orig_rt = N.result_type
    N.result_type = lambda *a: orig_rt(*[np.dtype(object) if isinstance(x, Sym) else x for x in a])
    wrap(N, 'nan_to_num', lambda x, *a, **k: x, 'np.nan_to_num')
    wrap(N, 'isrealobj', lambda x: True, 'np.isrealobj')
    ORIG['np.sqrt'] = np.sqrt
    np.sqrt = np_sqrt
    for c in ('zeros', 'ones', 'eye', 'identity', 'empty', 'full', 'zeros_like', 'ones_like', 'empty_like', 'full_like'):
        ctor(c, None)
    for c in ('array', 'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray'):
        conv(c)
    wrap(N, 'asarray_chkfinite', lambda x, *a, **k: np.asarray(x), 'np.asarray_chkfinite')
    # random source
    R = np.random
    wrap(R, 'multivariate_normal', mvn_sample, 'np.random.multivariate_normal')
    ORIG['randn'] = R.randn
    ORIG['seed'] = R.seed

    def seed(seed=None):
        if RNG[0] is not None:
            RNG[0].reseed(seed)
        else:
            ORIG['seed'](seed)
    R.seed = seed
    wrap(R, 'normal', normal_sample, 'np.random.normal')

    def stubbed(orig, f):
        def g(*a, **k):
            return f(*a, **k) if RNG[0] is not None else orig(*a, **k)
        return g
    R.multivariate_normal = stubbed(R.multivariate_normal, mvn_sample)
    R.normal = stubbed(R.normal, normal_sample)
    R.randn = stubbed(R.randn, lambda *sh: RNG[0].standard(tuple(sh)))
    R.standard_normal = stubbed(R.standard_normal, lambda size=None: RNG[0].standard(
        () if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size))))
    orig_rng = getattr(R, 'default_rng', None)

    class Gen:
        def __init__(self, g):
            self._g = g

        def __getattr__(self, n):
            return getattr(self._g, n)

        def multivariate_normal(self, mean, cov, size=None, **kw):
            if RNG[0] is not None or is_sym(mean) or is_sym(cov):
                return mvn_sample(mean, cov, size)
            return self._g.multivariate_normal(mean, cov, size=size, **kw)

        def standard_normal(self, size=None, **kw):
            if RNG[0] is not None:
                return RNG[0].standard(() if size is None else ((size,) if isinstance(size, (int, np.integer)) else tuple(size)))
            return self._g.standard_normal(size, **kw)

        def normal(self, loc=0.0, scale=1.0, size=None):
            if RNG[0] is not None or is_sym(loc) or is_sym(scale):
                return normal_sample(loc, scale, size)
            return self._g.normal(loc, scale, size)

        randn = None
    if orig_rng is not None:
        R.default_rng = lambda *a, **k: Gen(orig_rng(*a, **k))
    import scipy.stats as st
    mvn = st.multivariate_normal
    wrap(mvn, 'logpdf', logpdf, 'scipy.stats.multivariate_normal.logpdf')
    wrap(mvn, 'pdf', lambda x, mean=None, cov=1, allow_singular=False: elementwise(lambda v: v.exp())(logpdf(x, mean, cov)),
         'scipy.stats.multivariate_normal.pdf')
    oldrvs = mvn.rvs
    mvn.rvs = lambda mean=None, cov=1, size=1, random_state=None, allow_singular=False: (
        rvs_shape(mvn_sample(mean, cov, size if size != 1 else None))
        if RNG[0] is not None or is_sym(mean) or is_sym(cov) else oldrvs(mean, cov, size, random_state))
    wrap(st.norm, 'logpdf', normal_logpdf, 'scipy.stats.norm.logpdf')
    frozen(mvn, ('mean', 'cov', 'allow_singular'))
    frozen(st.norm, ('loc', 'scale'))
    # math
    M = math
    for name, meth in dict(sqrt='sqrt', sin='sin', cos='cos', exp='exp', log='log', tan='tan', tanh='tanh', atan='arctan',
                           log1p='log1p', log2='log2', log10='log10', floor='floor', ceil='ceil').items():
        o = getattr(M, name)
        ORIG['math.' + name] = o

        def g(x, *a, o=o, meth=meth, name=name):
            if is_sym(x):
                x = scalar(x)
                r = getattr(x, meth)()
                return r / coerce(a[0]).log() if a and name == 'log' else r
            return o(x, *a)
        setattr(M, name, g)
    for name in ('atan2', 'hypot', 'pow', 'fabs', 'isnan', 'isfinite', 'isinf', 'isclose'):
        o = getattr(M, name)
        ORIG['math.' + name] = o

        def g(*a, o=o, name=name, **kw):
            if any(is_sym(x) for x in a):
                a = [scalar(x) for x in a]
                if name == 'atan2':
                    return a[0].arctan2(a[1])
                if name == 'hypot':
                    return (a[0] * a[0] + a[1] * a[1]).sqrt()
                if name == 'pow':
                    return a[0] ** a[1]
                if name == 'fabs':
                    return abs(a[0])
                if name == 'isclose':
                    return np_isclose(a[0], a[1], kw.get('rel_tol', 1e-9), kw.get('abs_tol', 0.0))
                return name == 'isfinite'
            return o(*a, **kw)
        setattr(M, name, g)
    for name, f in dict(max=np_max, amax=np_max, min=np_min, amin=np_min).items():
        wrap(N, name, f, 'np.' + name)


class Frozen:
    """scipy's distribution objects with the parameters given beforehand: every method call goes to the distribution."""

    def __init__(self, dist, given):
        self._dist, self._given = dist, given
        self.__dict__.update(given)

    def __getattr__(self, name):
        f = getattr(self._dist, name)
        return lambda *a, **kw: f(*a, **dict(self._given, **({k: v for k, v in kw.items()})))


FREEZE = {}


def frozen(dist, names):
    cls = type(dist)
    if cls not in FREEZE:
        orig = cls.__call__
        FREEZE[cls] = {}

        def call(self, *args, **kw):
            names = FREEZE[cls].get(id(self))
            if names is not None:
                given = {**dict(zip(names, args)), **kw}
                if (RNG[0] is not None or any(is_sym(v) for v in given.values())) and all(k in names for k in given):
                    return Frozen(self, given)
            return orig(self, *args, **kw)
        cls.__call__ = call
    FREEZE[cls][id(dist)] = names


def rvs_shape(x):
    return np.squeeze(x)


def eig_nonsym(a):
    a = obj(a)
    if a.shape[0] == 1:
        return a[0].copy()
    if a.shape[0] == 2 and a[0, 1].key == a[1, 0].key:
        return eig_sym(a)
    if all(len(b) == 1 for b in blocks(a)):
        return np.array([a[i, i] for i in range(a.shape[0])], dtype=object)
    raise Unsupported('eigenvalues of a general symbolic matrix')
