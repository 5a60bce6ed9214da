"""Names and default values of inputs, shared by the symbolic and the concrete harness."""
import random
import zlib
from fractions import Fraction


def nice(name, sign, seed, k=0, hint=None, lo=None, hi=None):
    """A small rational for a variable; depends on the name, the seed and the attempt k."""
    r = random.Random(zlib.crc32(('%s|%s|%s' % (name, seed, k)).encode()))
    if hint is not None:
        if hasattr(hint, 'const'):
            hint = hint.const()
        h = Fraction(hint).limit_denominator(1000)
        if k == 0:
            v = h
        else:
            v = h * Fraction(r.randint(80, 125), 100) + (Fraction(r.randint(-4, 4), 16) if h == 0 or sign is None else 0)
    else:
        v = Fraction(r.randint(2, 24), 8) if '#' not in name else Fraction(r.randint(12, 192), 64)    # draws differ from one another
        if sign is None and r.random() < 0.4:
            v = -v
    if lo is not None and v < lo:
        v = Fraction(lo) + Fraction(r.randint(1, 16), 16)
    if hi is not None and v > hi:
        v = Fraction(hi) - Fraction(r.randint(1, 16), 64)
        if lo is not None and v < lo:
            v = (Fraction(lo) + Fraction(hi)) / 2
    if sign in ('+',) and v <= 0:
        v = Fraction(r.randint(2, 24), 8)
    if sign == '0+' and v < 0:
        v = -v
    return v


LAYOUTS = ('int0', 'int1', 'F', 'same')


def args(params):
    """Parameters of a scenario function; `layout` concerns the harness only."""
    return {k: v for k, v in params.items() if k != 'layout'}


def whole(layout, name):
    """Is the array input of this name one of integers in this layout?"""
    return layout is not None and layout.startswith('int') and zlib.crc32(name.encode()) & 1 == int(layout[3])


def integer(name, sign=None, hint=None, lo=None, hi=None, wide=True):
    v = nice(name, sign, 'int', 0, hint, lo, hi)
    r = random.Random(zlib.crc32(name.encode()))
    k = int(v) if wide else r.choice((-1, 1))
    if k == 0 and sign != '0+':
        k = r.choice((1, 2)) if sign == '+' or lo is not None and lo >= 0 else r.choice((-2, -1, 1, 2))
    return k if (lo is None or k >= lo) and (hi is None or k <= hi) else None


def laid_out(layout, a):
    """The same array in another memory layout: matrices in Fortran order, vectors as every other element of a longer one."""
    import numpy as np
    if layout != 'F' or a.ndim not in (1, 2) or not a.size:
        return a
    if a.ndim == 2:
        return np.asfortranarray(a)
    base = np.empty((2 * a.shape[0],), dtype=a.dtype)
    base[1::2] = a
    base[::2] = 1
    return base[1::2]


class Arrays:
    """Array inputs of a harness in the layout the scenario asks for; the values come from the class it is mixed into."""
    layout = None
    shared = None

    def alias(self, name, **need):
        """Layout `same`: inputs of one shape are one array object.  Returns (name that gives the values, the object or None);
        asking for a name again gives a new array of its values, as in the other layouts."""
        if self.layout != 'same':
            return name, None
        if self.shared is None:
            self.shared, self.origin = {}, {}
        if name in self.origin:
            return self.origin[name], None
        if (need['kind'], need['shape']) in self.shared:
            first, a = self.shared[need['kind'], need['shape']]
            self.origin[name] = first
            return first, a
        self.origin[name] = name
        return name, None

    def share(self, name, kind, a):
        if self.layout == 'same':
            self.shared.setdefault((kind, a.shape), (name, a))
        return a

    def vec(self, name, n, **kw):
        if whole(self.layout, name):
            h = kw.get('hint')
            a = [integer('%s%d' % (name, i + 1), kw.get('sign'), None if h is None else h[i], kw.get('lo'), kw.get('hi')) for i in range(n)]
            if n and None not in a:
                return as_int(a)
        if kw:
            return laid_out(self.layout, self._vec(name, n, **kw))
        name, a = self.alias(name, kind='vec', shape=(n,))
        return self.share(name, 'vec', laid_out(self.layout, self._vec(name, n))) if a is None else a

    def mat(self, name, n, m, **kw):
        if whole(self.layout, name):
            h = kw.get('hint')
            a = [[integer(ij(name, i, j), kw.get('sign'), None if h is None else h[i][j], kw.get('lo'), kw.get('hi')) for j in range(m)] for i in range(n)]
            if n and m and not any(None in r for r in a):
                return as_int(a)
        if kw:
            return laid_out(self.layout, self._mat(name, n, m, **kw))
        name, a = self.alias(name, kind='mat', shape=(n, m))
        return self.share(name, 'mat', laid_out(self.layout, self._mat(name, n, m))) if a is None else a

    def sym(self, name, n, hint=None):
        """An arbitrary symmetric matrix."""
        if whole(self.layout, name) and hint is None:
            return as_int([[3 + i + (2 * n - 2 if n > 3 else 0) if i == j else integer(ij(name, min(i, j), max(i, j)), wide=False)
                            for j in range(n)] for i in range(n)])
        if hint is not None:
            return laid_out(self.layout, self._sym(name, n, hint))
        return self.spd(name, n) if self.layout == 'same' else laid_out(self.layout, self._sym(name, n))

    def spd(self, name, n, scale=1):
        """An arbitrary symmetric positive-definite matrix, by its Cholesky factor."""
        if whole(self.layout, name) and scale == int(scale):
            L = as_int([[0 if j > i else integer('%s_l%d%d' % (name, i + 1, j + 1), '+' if i == j else None, wide=i == j) for j in range(n)] for i in range(n)])
            return L @ L.T * int(scale)
        if scale != 1:
            return laid_out(self.layout, self._spd(name, n, scale))
        name, a = self.alias(name, kind='spd', shape=(n, n))
        return self.share(name, 'spd', laid_out(self.layout, self._spd(name, n, 1))) if a is None else a


def as_int(a):
    import numpy as np
    return np.array(a, dtype=np.int64)


def ij(name, i, j):
    return '%s%d%d' % (name, i + 1, j + 1) if i < 9 and j < 9 else '%s%d_%d' % (name, i + 1, j + 1)
