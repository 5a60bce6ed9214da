"""Symbolic real scalars.

A `Sym` is a rational function over symbolic real variables with integer coefficients, kept in the form
N / (c * prod f_i^e_i): N an expanded sparse polynomial, c a positive integer, f_i polynomials from a
table of denominators.  Square roots, sines, cosines and other functions are variables with defining
constraints (s*s = radicand, sin^2 + cos^2 = 1, ...).  Nothing here decides a property: comparisons give
`SymBool`s, which the explorer turns into SMT queries.
"""
import math
import numbers
import re
import sys
from fractions import Fraction
from math import gcd

getattr(sys, 'set_int_max_str_digits', int)(0)        # exact numbers may be long

W = 12                       # bits per exponent field; the top bit of a field is a guard


class Unsupported(Exception):
    """The encoding cannot represent this operation.  Remembered, because the code under test may swallow it."""

    def __init__(self, *a):
        super().__init__(*a)
        if HOOKS.aborted is None:
            HOOKS.aborted = self


class DivisionByZero(Unsupported):
    pass


class PathInfeasible(BaseException):
    """The current path contradicts its assumptions."""


# ------------------------------------------------------------------ variables
class Var:
    __slots__ = ('name', 'idx', 'kind', 'sign', 'data', 'hint', 'one', 'lo', 'hi')

    def __init__(self, name, kind, sign, data=None, hint=None):
        self.name, self.kind, self.sign, self.data, self.hint = name, kind, sign, data, hint
        self.lo = self.hi = None
        self.idx = len(VARS)
        self.one = 1 << (self.idx * W)
        VARS.append(self)
        _grow()

    @property
    def smt(self):
        return 'v%d' % self.idx


VARS = []
BYNAME = {}
GUARD = 0
ALGHI = 0                    # bits set where the exponent of an algebraic variable is >= 2
ALGANY = 0
FIELD = (1 << W) - 1


def _grow():
    global GUARD
    i = len(VARS) - 1
    GUARD |= 1 << (i * W + W - 1)


def _mark_alg(v):
    global ALGHI, ALGANY
    ALGHI |= (FIELD & ~1) << (v.idx * W)
    ALGANY |= FIELD << (v.idx * W)


def base_var(name, sign=None, hint=None, lo=None, hi=None):
    v = BYNAME.get(name)
    if v is None:
        v = Var(name, 'base', sign, hint=hint)
        BYNAME[name] = v
        v.lo, v.hi = lo, hi
    return v


def mono_vars(m):
    i = 0
    while m:
        e = m & FIELD
        if e:
            yield i, e
        m >>= W
        i += 1


# ------------------------------------------------------------------ polynomials: {mono: int}
def padd(a, b, ca=1, cb=1):
    if ca == 1:
        r = dict(a)
    else:
        r = {m: c * ca for m, c in a.items()}
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c * cb
        else:
            v += c * cb
            if v:
                r[m] = v
            else:
                del r[m]
    return r


MAXTERMS = 400000


def pmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m1, c1), = a.items()
        return {m + m1: c * c1 for m, c in b.items()}
    if len(a) * len(b) > 40 * MAXTERMS:
        raise Unsupported('polynomial product too large')
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            v = r.get(m)
            r[m] = c1 * c2 if v is None else v + c1 * c2
    r = {m: c for m, c in r.items() if c}
    if len(r) > MAXTERMS:
        raise Unsupported('polynomial too large')
    return r


def pcontent(a):
    g = 0
    for c in a.values():
        g = gcd(g, c)
        if g == 1:
            return 1
    return g


def pscale_div(a, g):
    return a if g == 1 else {m: c // g for m, c in a.items()}


def pvars(a):
    u = 0
    for m in a:
        u |= m
    return [i for i, _ in mono_vars(u)]


def has_alg(a):
    for m in a:
        if m & ALGANY:
            return True
    return False


PRIME = (1 << 61) - 1
_RND = {}


def _rnd(i):
    v = _RND.get(i)
    if v is None:
        v = _RND[i] = (0x9E3779B97F4A7C15 * (i + 7) * (i + 13) * (2 * i + 1)) % PRIME
    return v


def _univ(a, x):
    """Image of a in Z_p[v_x], the other variables set to fixed pseudo-random values."""
    out = {}
    sh = x * W
    for m, c in a.items():
        e = (m >> sh) & FIELD
        r = c % PRIME
        for i, k in mono_vars(m):
            if i != x:
                r = r * pow(_rnd(i), k, PRIME) % PRIME
        out[e] = (out.get(e, 0) + r) % PRIME
    deg = max(out)
    return [out.get(i, 0) for i in range(deg + 1)]


def _univ_divides(f, n):
    while f and f[-1] == 0:
        f.pop()
    if not f:
        return True
    inv = pow(f[-1], PRIME - 2, PRIME)
    n = list(n)
    df = len(f) - 1
    for k in range(len(n) - 1, df - 1, -1):
        q = n[k] * inv % PRIME
        if q:
            for j in range(df + 1):
                n[k - df + j] = (n[k - df + j] - q * f[j]) % PRIME
    return not any(n[:df])


def pdivide(n, f):
    """n / f if f divides n exactly, else None.  f primitive."""
    if len(f) == 1:
        (fm, fc), = f.items()
        out = {}
        for m, c in n.items():
            if ((m | GUARD) - fm) & GUARD != GUARD or c % fc:
                return None
            out[m - fm] = c // fc
        return out
    if len(n) < len(f) and len(n) == 1:
        return None
    fl = max(f)
    nl = max(n)
    if ((nl | GUARD) - fl) & GUARD != GUARD:
        return None
    fs, ns = min(f), min(n)
    if ((ns | GUARD) - fs) & GUARD != GUARD:
        return None
    # an exact divisor's main variable must occur; cheap modular filter
    x = (fl.bit_length() - 1) // W
    if len(n) > 3:
        if not _univ_divides(_univ(f, x), _univ(n, x)):
            return None
    import heapq
    rem = dict(n)
    heap = [-m for m in rem]
    heapq.heapify(heap)
    fc = f[fl]
    rest = [(m, c) for m, c in f.items() if m != fl]
    q = {}
    while heap:
        m = -heapq.heappop(heap)
        c = rem.pop(m, 0)
        if not c:
            continue
        if ((m | GUARD) - fl) & GUARD != GUARD or c % fc:
            return None
        qm, qc = m - fl, c // fc
        q[qm] = qc
        for m2, c2 in rest:
            mm = qm + m2
            v = rem.get(mm)
            if v is None:
                rem[mm] = -qc * c2
                heapq.heappush(heap, -mm)
            else:
                rem[mm] = v - qc * c2
    return q


FACTS = {}                   # frozenset(primitive poly) -> sign, assumed on this path
FACTLIST = []                # [(poly, varset)] of the strictly positive ones


def _primitive(p):
    g = pcontent(p)
    if p[max(p)] < 0:
        g = -g
    return g, (p if g == 1 else {m: c // g for m, c in p.items()})


def add_fact(p, sign):
    """On this path the polynomial p has the given sign ('+', '0+', '!')."""
    if not p or (len(p) == 1 and 0 in p):
        return
    g, q = _primitive(p)
    if g < 0:
        sign = {'+': '-', '0+': '0-', '!': '!'}[sign]
    k = frozenset(q.items())
    old = FACTS.get(k)
    if old in ('+', '-') or (old == sign):
        return
    FACTS[k] = sign
    if len(q) == 1:
        (m, _), = q.items()
        vs = list(mono_vars(m))
        if len(vs) == 1 and vs[0][1] == 1 and sign in ('+', '0+', '!'):
            v = VARS[vs[0][0]]
            if v.sign is None or (v.sign == '0+' and sign == '+'):
                v.sign = sign
    elif sign in ('+', '-') and len(FACTLIST) < 40 and len(q) < 3000:
        FACTLIST.append((q, set(pvars(q)), sign))
    i = FKEY.get(k)
    if i is not None and sign in ('+', '-') and FSIGN[i] not in ('+', '-'):
        FSIGN[i] = sign


_FLIP = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0', None: None, '!': '!'}


def poly_sign(p, facts=True):
    """'+', '-', '0+', '0-', '0' or None, from declared signs of the variables and the facts of this path."""
    if not p:
        return '0'
    s = _syntactic_sign(p)
    if s in ('+', '-') or not FACTS or not facts:
        return s
    g, q = _primitive(p)
    r = FACTS.get(frozenset(q.items()))
    if r in ('+', '-', '0+', '0-'):
        return r if g > 0 else _FLIP[r]
    if s is None and len(q) > 1:
        flip = g < 0
        pv = None
        for f, fv, fs in FACTLIST:
            if len(f) > len(q) * 2:
                continue
            if pv is None:
                pv = set(pvars(q))
            if not fv <= pv:
                continue
            hit = False
            while len(q) > 1:
                t = pdivide(q, f)
                if t is None:
                    break
                q, hit = t, True
                if fs == '-':
                    flip = not flip
            if hit:
                r = _syntactic_sign(q)
                if r is None:
                    g2, q2 = _primitive(q)
                    r = FACTS.get(frozenset(q2.items()))
                    if r == '!':
                        r = None
                    if g2 < 0:
                        r = _FLIP[r]
                if r is not None:
                    return _FLIP[r] if flip else r
                pv = set(pvars(q))
    return s


def _syntactic_sign(p):
    pos = neg = False
    strict = False
    if not p:
        return '0'
    for m, c in p.items():
        s = True              # monomial known nonnegative
        st = True             # known strictly positive
        for i, e in mono_vars(m):
            sg = VARS[i].sign
            if sg == '+':
                continue
            if e & 1 == 0:
                if sg != '!':
                    st = False
                continue
            if sg == '0+':
                st = False
                continue
            s = False
            break
        if not s:
            return None
        if c > 0:
            pos = True
        else:
            neg = True
        if pos and neg:
            return None
        if st:
            strict = True
    if pos:
        return '+' if strict else '0+'
    return '-' if strict else '0-'


# ------------------------------------------------------------------ denominator factors
FACT = []
FSIGN = []
FKEY = {}


def factor_id(f):
    k = frozenset(f.items())
    i = FKEY.get(k)
    if i is None:
        i = len(FACT)
        FACT.append(f)
        FSIGN.append(poly_sign(f))
        FKEY[k] = i
    return i


def split_factors(n):
    """n (nonzero, no algebraic variables needed) -> (sign*content int, {fid: exp})."""
    g = pcontent(n)
    if n[max(n)] < 0:
        g = -g
    n = {m: c // g for m, c in n.items()}
    fs = {}
    # monomial content
    com = None
    for m in n:
        if com is None:
            com = dict(mono_vars(m))
        else:
            for i in list(com):
                e = (m >> (i * W)) & FIELD
                if e < com[i]:
                    if e:
                        com[i] = e
                    else:
                        del com[i]
        if not com:
            break
    if com:
        mm = 0
        for i, e in com.items():
            mm += VARS[i].one * e
            fs[factor_id({VARS[i].one: 1})] = e
        n = {m - mm: c for m, c in n.items()}
    if len(n) > 1:
        k = FKEY.get(frozenset(n.items()))
        if k is not None:
            fs[k] = fs.get(k, 0) + 1
            return g, fs
        nv = set(pvars(n))
        for fid in range(len(FACT) - 1, max(-1, len(FACT) - 400), -1):
            f = FACT[fid]
            if len(f) < 2 or len(n) < 2:
                continue
            if len(f) > len(n) * 4 + 8:
                continue
            if not set(pvars(f)) <= nv:
                continue
            while len(n) > 1:
                q = pdivide(n, f)
                if q is None:
                    break
                fs[fid] = fs.get(fid, 0) + 1
                n = q
    if len(n) == 1 and 0 in n:
        return g * n[0], fs
    if n:
        if n[max(n)] < 0:
            g, n = -g, {m: -c for m, c in n.items()}
        k = factor_id(n)
        fs[k] = fs.get(k, 0) + 1
    return g, fs


# ------------------------------------------------------------------ constants
def simplest_between(lo, hi):
    """The rational with the smallest denominator in [lo, hi]."""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest_between(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


_FLT = {}


def float_to_fraction(x):
    r = _FLT.get(x)
    if r is None:
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('nan or inf constant in symbolic arithmetic')
        if x == int(x):
            r = Fraction(int(x))
        else:
            f = Fraction(abs(x))
            eps = f / (1 << 48)
            r = simplest_between(f - eps, f + eps)
            if x < 0:
                r = -r
        _FLT[x] = r
    return r


_np_bool = None


def coerce(x):
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return from_fraction(Fraction(int(x)))
    if isinstance(x, numbers.Integral):
        return from_fraction(Fraction(int(x)))
    if isinstance(x, float):
        return from_fraction(float_to_fraction(float(x)))
    if isinstance(x, Fraction):
        return from_fraction(x)
    t = type(x)
    if t.__module__ == 'numpy':
        if t.__name__ == 'ndarray':
            return None
        if t.__name__.startswith('float'):
            return from_fraction(float_to_fraction(float(x)))
        if t.__name__.startswith('bool'):
            return from_fraction(Fraction(int(x)))
    return None


def from_fraction(f):
    if f == 0:
        return ZERO
    return Sym({0: f.numerator}, f.denominator, ())


# ------------------------------------------------------------------ hooks set by the explorer
class _Hooks:
    branch = None            # branch(SymBool) -> bool
    nonzero = None           # nonzero(Sym): record that a divisor is assumed nonzero
    concretise = None        # concretise(Sym) -> Fraction
    aborted = None           # first Unsupported / control-flow exception raised on this path


HOOKS = _Hooks()


class Sym:
    __slots__ = ('n', 'c', 'd', '_key')

    def __init__(self, n, c, d):
        self.n, self.c, self.d, self._key = n, c, d, None

    # ---- structure
    @property
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.n.items()), self.c, self.d)
        return self._key

    def __hash__(self):
        return 7      # values with different terms may be equal: a dictionary has to compare (and fork)

    @property
    def is_const(self):
        return not self.d and (not self.n or (len(self.n) == 1 and 0 in self.n))

    def const(self):
        return Fraction(self.n.get(0, 0), self.c)

    def vars(self):
        vs = set(pvars(self.n))
        for f, _ in self.d:
            vs.update(pvars(FACT[f]))
        return vs

    # ---- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return _add(self, o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return _add(self, o, -1)

    def __rsub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return _add(o, self, -1)

    def __neg__(self):
        return Sym({m: -c for m, c in self.n.items()}, self.c, self.d)

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return _div(self, o)

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return _div(o, self)

    def __pow__(self, p, mod=None):
        q = coerce(p)
        if q is None:
            return NotImplemented
        if q.is_const:
            f = q.const()
            if f.denominator == 1:
                return _ipow(self, int(f))
            if f.denominator == 2:
                return _ipow(self.sqrt(), int(f.numerator))
            if self.is_const:
                return coerce(float(self.const()) ** float(f))
        if self.is_const and self.const() == 1:
            return ONE
        return fn_atom('pow', (self, q), '+')

    def __rpow__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return o ** self

    def __mod__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        if self.is_const and o.is_const:
            return from_fraction(self.const() % o.const())
        if o.is_const and o.const() != 0 and HOOKS.branch is not None:
            return self - o * whole_part(self / o, 'floor')
        return fn_atom('mod', (self, o), None)

    def __floordiv__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        if self.is_const and o.is_const:
            return from_fraction(Fraction(self.const() // o.const()))
        return (self - self % o) / o

    def __abs__(self):
        s = self.sign()
        if s in ('+', '0+', '0'):
            return self
        if s in ('-', '0-'):
            return -self
        return self if bool(self >= 0) else -self

    # ---- numpy object-array ufunc methods
    def sqrt(self):
        return sym_sqrt(self)

    def square(self):
        return _mul(self, self)

    def sin(self):
        return sym_sin(self)

    def cos(self):
        return sym_cos(self)

    def tan(self):
        return _div(sym_sin(self), sym_cos(self))

    def exp(self):
        if self.is_const and not self.n:
            return ONE
        if self.is_const:
            return coerce(math.exp(self.const()))
        if _leading_negative(self):
            return _div(ONE, fn_atom('exp', (-self,), '+'))
        return fn_atom('exp', (self,), '+')

    def log(self):
        return sym_log(self)

    def log1p(self):
        return sym_log(self + 1)

    def log2(self):
        return sym_log(self) / math.log(2)

    def log10(self):
        return sym_log(self) / math.log(10)

    def arctan2(self, o):
        o = coerce(o)
        if self.is_const and o.is_const:
            return coerce(math.atan2(self.const(), o.const()))
        return fn_atom('atan2', (self, o), None)

    def arctan(self):
        if self.is_const:
            return coerce(math.atan(self.const()))
        return fn_atom('atan', (self,), None)

    def tanh(self):
        if self.is_const:
            return coerce(math.tanh(self.const()))
        return fn_atom('tanh', (self,), None)

    def hypot(self, o):
        return (self * self + coerce(o) * coerce(o)).sqrt()

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return ZERO

    def item(self):
        return self

    def copy(self):
        return self

    # ---- conversions
    def __float__(self):
        if self.is_const:
            return float(self.const())
        if HOOKS.concretise is None:
            raise Unsupported('float() of a symbolic value')
        return float(HOOKS.concretise(self))

    def __int__(self):
        if self.is_const:
            return int(self.const())
        return whole_part(self, 'trunc')

    __trunc__ = __int__

    def __round__(self, n=None):
        if n is None:
            return whole_part(self, 'rint')
        return from_fraction(Fraction(whole_part(self * 10 ** n, 'rint'))) / 10 ** n

    def __floor__(self):
        return whole_part(self, 'floor')

    def __ceil__(self):
        return -whole_part(-self, 'floor')

    def floor(self):
        return coerce(whole_part(self, 'floor'))

    def ceil(self):
        return coerce(-whole_part(-self, 'floor'))

    def trunc(self):
        return coerce(whole_part(self, 'trunc'))

    def rint(self):
        return coerce(whole_part(self, 'rint'))

    # ---- comparisons
    def sign(self):
        s = poly_sign(self.n)
        for f, e in self.d:
            if e % 2 == 0:
                continue
            fs = FSIGN[f]
            if fs == '+' or fs == '0+':
                continue
            if fs in ('-', '0-'):
                s = {'+': '-', '-': '+', '0+': '0-', '0-': '0+', '0': '0', None: None}[s]
            else:
                return '0' if s == '0' else None
        return s

    def _cmp(self, o, op):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return compare(_add(self, o, -1), op)

    def __lt__(self, o):
        return self._cmp(o, '<')

    def __le__(self, o):
        return self._cmp(o, '<=')

    def __gt__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return compare(_add(o, self, -1), '<')

    def __ge__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return compare(_add(o, self, -1), '<=')

    def __eq__(self, o):
        r = self._cmp(o, '=')
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, '!=')
        return True if r is NotImplemented else r

    def __bool__(self):
        return bool(self != 0)

    def __repr__(self):
        return show(self)

    def __format__(self, spec):
        """Text with symbolic numbers carries tokens: '<sym N>' stands for all digits of PRINTED[N], '<sym N:spec>' for some."""
        if self.is_const and not TOKENS[0]:
            return format(float(self), spec)
        return '<sym %d%s>' % (PRINTED.setdefault(self.key, (len(PRINTED), self))[0], ':' + spec if spec else '')


def printed(text):
    """The number a token in a text stands for, or None."""
    m = re.fullmatch(r'\s*<sym (\d+)(:[^>]*)?>\s*', text)
    return next((v for i, v in PRINTED.values() if i == int(m.group(1))), None) if m else None


PRINTED, TOKENS = {}, [False]     # TOKENS: also for constants
ZERO = Sym({}, 1, ())
ONE = Sym({0: 1}, 1, ())


def var(name, sign=None, hint=None, lo=None, hi=None):
    return Sym({base_var(name, sign, hint, lo, hi).one: 1}, 1, ())


def of_var(v):
    return Sym({v.one: 1}, 1, ())


def make(n, c, d):
    """Normalise n / (c * prod d); d a dict fid -> exp > 0; c a nonzero int."""
    if not n:
        return ZERO
    for m in n:
        if m & ALGHI:
            return _reduce(n, c, d)
    if c < 0:
        c = -c
        n = {m: -k for m, k in n.items()}
    if d:
        for f in list(d):
            e = d[f]
            fp = FACT[f]
            while e:
                q = pdivide(n, fp)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                d[f] = e
            else:
                del d[f]
    if c != 1:
        g = gcd(pcontent(n), c)
        if g != 1:
            n = {m: k // g for m, k in n.items()}
            c //= g
    return Sym(n, c, tuple(sorted(d.items())))


def _reduce(n, c, d):
    """Apply v*v = data for the algebraic variable of highest index with exponent >= 2."""
    best = -1
    for m in n:
        h = m & ALGHI
        if h:
            i = (h.bit_length() - 1) // W
            if i > best:
                best = i
    v = VARS[best]
    sh = best * W
    groups = {}
    for m, k in n.items():
        e = (m >> sh) & FIELD
        mm = m - (e << sh) + ((e & 1) << sh)
        g = groups.setdefault(e >> 1, {})
        g[mm] = g.get(mm, 0) + k
    rad = v.data
    total = ZERO
    for q, g in sorted(groups.items()):
        total = _add(total, _mul(make(g, 1, {}), _ipow(rad, q)), 1)
    return _mul(total, Sym({0: 1}, 1, ())) if (c == 1 and not d) else _mul(total, make({0: 1}, c, dict(d)))


def _add(a, b, sg):
    if not b.n:
        return a
    if not a.n:
        return b if sg == 1 else -b
    if a.d == b.d:
        if a.c == b.c:
            n = padd(a.n, b.n, 1, sg)
            c = a.c
        else:
            g = gcd(a.c, b.c)
            n = padd(a.n, b.n, b.c // g, sg * (a.c // g))
            c = a.c // g * b.c
        if not a.d:
            if not n:
                return ZERO
            if c != 1:
                g = gcd(pcontent(n), c)
                if g != 1:
                    n = {m: k // g for m, k in n.items()}
                    c //= g
            return Sym(n, c, ())
        return make(n, c, dict(a.d))
    da, db = dict(a.d), dict(b.d)
    d = dict(da)
    for f, e in db.items():
        if d.get(f, 0) < e:
            d[f] = e
    na, nb = a.n, b.n
    for f, e in d.items():
        for _ in range(e - da.get(f, 0)):
            na = pmul(na, FACT[f])
        for _ in range(e - db.get(f, 0)):
            nb = pmul(nb, FACT[f])
    g = gcd(a.c, b.c)
    n = padd(na, nb, b.c // g, sg * (a.c // g))
    return make(n, a.c // g * b.c, d)


def _mul(a, b):
    if not a.n or not b.n:
        return ZERO
    an, bn = a.n, b.n
    d = {}
    if a.d or b.d:
        da, db = dict(a.d), dict(b.d)
        # cross-cancel before expanding
        if db and len(an) > 0:
            for f in list(db):
                while db.get(f, 0):
                    q = pdivide(an, FACT[f])
                    if q is None:
                        break
                    an = q
                    db[f] -= 1
                if not db[f]:
                    del db[f]
        if da:
            for f in list(da):
                while da.get(f, 0):
                    q = pdivide(bn, FACT[f])
                    if q is None:
                        break
                    bn = q
                    da[f] -= 1
                if not da[f]:
                    del da[f]
        d = da
        for f, e in db.items():
            d[f] = d.get(f, 0) + e
    n = pmul(an, bn)
    return make(n, a.c * b.c, d)


def _inv(b):
    """1/b, without the nonzero side condition."""
    n = b.n
    num = None
    while has_alg(n):
        top = -1
        for m in n:
            h = m & ALGANY
            if h:
                i = (h.bit_length() - 1) // W
                top = max(top, i)
        v = VARS[top]
        sh = top * W
        A, B = {}, {}
        for m, k in n.items():
            if (m >> sh) & FIELD:
                B[m - v.one] = k
            else:
                A[m] = k
        if A:
            conj = make(padd(A, {m + v.one: k for m, k in B.items()}, 1, -1), 1, {})
        else:
            conj = make({v.one: 1}, 1, {})
        den = _mul(make(n, 1, {}), conj)
        if not den.n:
            raise DivisionByZero('division by an expression that is zero')
        # 1/n = conj/den = conj * den.c * den.d / den.n
        dd = Sym({0: den.c}, 1, ())
        t = _mul(conj, dd)
        for f, e in den.d:
            for _ in range(e):
                t = _mul(t, Sym(FACT[f], 1, ()))
        num = t if num is None else _mul(num, t)
        n = den.n
    g, fs = split_factors(n)
    r = make({0: 1}, g, fs)
    if num is not None:
        r = _mul(num, r)
    t = {0: b.c}
    for f, e in b.d:
        for _ in range(e):
            t = pmul(t, FACT[f])
    return _mul(make(t, 1, {}), r)


_INV = {}


def known_nonzero(n):
    if len(n) == 1:
        (m, _), = n.items()
        if all(VARS[i].sign in ('+', '!') for i, _ in mono_vars(m)):
            return True
    if FACTS:
        r = FACTS.get(frozenset(_primitive(n)[1].items()))
        return r in ('+', '-', '!')
    return False


def _div(a, b):
    if not b.n:
        raise DivisionByZero('symbolic division by zero')
    if b.is_const:
        f = b.const()
        return _mul(a, Sym({0: f.denominator if f > 0 else -f.denominator}, abs(f.numerator), ()))
    if HOOKS.nonzero is not None and b.sign() not in ('+', '-') and not known_nonzero(b.n):
        HOOKS.nonzero(b)
    if a.key == b.key:
        return ONE
    r = _INV.get(b.key)
    if r is None:
        r = _INV[b.key] = _inv(b)
    return _mul(a, r)


def _ipow(a, p):
    if p < 0:
        return _div(ONE, _ipow(a, -p))
    r = ONE
    while p:
        if p & 1:
            r = _mul(r, a)
        p >>= 1
        if p:
            a = _mul(a, a)
    return r


# ------------------------------------------------------------------ function atoms
ATOMS = {}


def fn_atom(fn, args, sign):
    k = (fn,) + tuple(a.key for a in args)
    v = ATOMS.get(k)
    if v is None:
        v = Var('%s!%d' % (fn, len(ATOMS)), fn, sign, data=args)
        ATOMS[k] = v
    return of_var(v)


def _isqrt_exact(i):
    r = math.isqrt(i)
    return r if r * r == i else None


def _square_split(i):
    """i = s*s*r with r squarefree-ish (small primes only)."""
    s, r = 1, i
    p = 2
    while p * p <= r and p < 2000:
        while r % (p * p) == 0:
            r //= p * p
            s *= p
        p += 1
    q = _isqrt_exact(r)
    if q is not None:
        s, r = s * q, 1
    return s, r


def sym_sqrt(a):
    if not a.n:
        return ZERO
    if a.is_const and a.const() < 0:
        raise Unsupported('square root of a negative constant')
    # outside: known-positive square parts;  inside: a polynomial radicand if denominators are positive
    out_n, out_c = {0: 1}, 1
    ok = all(FSIGN[f] == '+' for f, e in a.d)
    if not ok:
        k = ('sqrt', a.key)
        v = ATOMS.get(k)
        if v is None:
            v = Var('sqrt!%d' % len(ATOMS), 'sqrt', '0+', data=a)
            _mark_alg(v)
            ATOMS[k] = v
        return of_var(v)
    n = a.n
    od = {}
    for f, e in a.d:
        if e & 1:
            n = pmul(n, FACT[f])
        od[f] = (e + 1) // 2
    n = {m: k * a.c for m, k in n.items()}        # sqrt(N/(cD)) = sqrt(N c D_odd) / (c D_ceil)
    out_c = a.c
    g = pcontent(n)
    s, _ = _square_split(g)
    if s != 1:
        n = {m: k // (s * s) for m, k in n.items()}
        out_n = {0: s}
    # positive variables to even powers
    com = None
    for m in n:
        e = dict(mono_vars(m))
        com = e if com is None else {i: min(x, e[i]) for i, x in com.items() if i in e}
        if not com:
            break
    mm = half = 0
    for i, e in (com or {}).items():
        if VARS[i].sign in ('+', '0+') and e >= 2:
            mm += VARS[i].one * (e // 2 * 2)
            half += VARS[i].one * (e // 2)
    if mm:
        n = {m - mm: k for m, k in n.items()}
        out_n = pmul(out_n, {half: 1})
    if len(n) == 1 and n.get(0) == 1:
        return make(out_n, out_c, od)
    if len(n) > 2:
        # whole radicand a known square of a positive polynomial?
        r = _poly_sqrt(n)
        if r is not None:
            sg = poly_sign(r)
            if sg in ('+', '0+'):
                return make(pmul(out_n, r), out_c, od)
            if sg in ('-', '0-'):
                return make(pmul(out_n, {m: -k for m, k in r.items()}), out_c, od)
    rad = make(n, 1, {})
    k = ('sqrt', rad.key)
    v = ATOMS.get(k)
    if v is None:
        v = Var('sqrt!%d' % len(ATOMS), 'sqrt', '+' if rad.sign() == '+' else '0+', data=rad)
        _mark_alg(v)
        ATOMS[k] = v
    return _mul(of_var(v), make(out_n, out_c, od))


def _poly_sqrt(n):
    """r with r*r == n, or None (dense square-root by leading terms)."""
    lead = max(n)
    r0c = _isqrt_exact(n[lead]) if n[lead] > 0 else None
    if r0c is None or any(e & 1 for _, e in mono_vars(lead)):
        return None
    r0m = lead // 2
    root = {r0m: r0c}
    rem = padd(n, pmul(root, root), 1, -1)
    for _ in range(60):
        if not rem:
            return root
        m = max(rem)
        if ((m | GUARD) - r0m) & GUARD != GUARD or rem[m] % (2 * r0c):
            return None
        t = {m - r0m: rem[m] // (2 * r0c)}
        if (m - r0m) in root:
            return None
        rem = padd(rem, padd(pmul(root, t), pmul(t, t), 2, 1), 1, -1)
        root.update(t)
    return None


def _leading_negative(a):
    return bool(a.n) and a.n[max(a.n)] < 0


def sym_sin(a):
    if a.is_const:
        return coerce(math.sin(a.const())) if a.n else ZERO
    if _leading_negative(a):
        return -sym_sin(-a)
    k = ('sin', a.key)
    v = ATOMS.get(k)
    if v is None:
        cv = sym_cos(a)
        v = Var('sin!%d' % len(ATOMS), 'sin', None, data=ONE - cv * cv)
        _mark_alg(v)
        ATOMS[k] = v
        TRIGARG[v.idx] = a
    return of_var(v)


TRIGARG = {}


def sym_cos(a):
    if a.is_const:
        return coerce(math.cos(a.const())) if a.n else ONE
    if _leading_negative(a):
        a = -a
    k = ('cos', a.key)
    v = ATOMS.get(k)
    if v is None:
        v = Var('cos!%d' % len(ATOMS), 'cos', None, data=(a,))
        ATOMS[k] = v
        TRIGARG[v.idx] = a
    return of_var(v)


def sym_log(a):
    if a.is_const:
        f = a.const()
        if f <= 0:
            raise Unsupported('log of a non-positive constant')
        return coerce(math.log(f)) if f != 1 else ZERO
    n = a.n
    if has_alg(n) and len(n) > 1:
        return fn_atom('log', (a,), None)
    g, fs = split_factors(n)
    tot = coerce(math.log(abs(g) / a.c) if abs(g) != a.c else 0)
    neg = g < 0
    parts = dict(fs)
    for f, e in a.d:
        parts[f] = parts.get(f, 0) - e
    unknown = []
    for f, e in parts.items():
        if e == 0:
            continue
        p = FACT[f]
        if len(p) == 1:
            (m, _), = p.items()
            v = VARS[(m.bit_length() - 1) // W]
            if v.kind == 'sqrt':
                tot = tot + Fraction(e, 2) * sym_log(v.data)
                continue
        if FSIGN[f] == '+':
            tot = tot + e * fn_atom('log', (Sym(p, 1, ()),), None)
        else:
            unknown.append((f, e))
    if len(unknown) == 1 and not neg and unknown[0][1] % 2:
        # the argument of log is positive, so this single factor (odd power) is
        f, e = unknown[0]
        tot = tot + e * fn_atom('log', (Sym(FACT[f], 1, ()),), None)
    elif len(unknown) == 1 and neg and unknown[0][1] % 2:
        f, e = unknown[0]
        tot = tot + e * fn_atom('log', (-Sym(FACT[f], 1, ()),), None)
    elif unknown or neg:
        return fn_atom('log', (a,), None)
    return tot


def reset():
    """Forget everything: the start of a path."""
    global GUARD, ALGHI, ALGANY
    GUARD = ALGHI = ALGANY = 0
    for t in (VARS, BYNAME, _RND, FACT, FSIGN, FKEY, FACTS, FACTLIST, ATOMS, TRIGARG, _INV):
        t.clear()
    HOOKS.aborted = None


# ------------------------------------------------------------------ booleans
class SymBool:
    """('cmp', op, [poly, ...]) : product of the polys  op  0, op in < <= = != ; ('and'|'or', [..]); ('not', b)."""
    __slots__ = ('kind', 'op', 'args', '_key')

    def __init__(self, kind, op, args):
        self.kind, self.op, self.args, self._key = kind, op, args, None

    @property
    def key(self):
        if self._key is None:
            if self.kind == 'cmp':
                self._key = ('cmp', self.op, tuple(sorted((frozenset(p.items()) for p in self.args), key=hash)))
            else:
                self._key = (self.kind,) + tuple(a.key for a in self.args)
        return self._key

    def __hash__(self):
        return hash(self.key)

    def negate(self):
        if self.kind == 'cmp':
            if self.op == '=':
                return SymBool('cmp', '!=', self.args)
            if self.op == '!=':
                return SymBool('cmp', '=', self.args)
            neg = [{m: -c for m, c in self.args[0].items()}] + list(self.args[1:])
            return SymBool('cmp', '<=' if self.op == '<' else '<', neg)
        if self.kind == 'not':
            return self.args[0]
        return SymBool('or' if self.kind == 'and' else 'and', None, [a.negate() for a in self.args])

    def __invert__(self):
        return self.negate()

    def __and__(self, o):
        return conj([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return disj([self, o])

    __ror__ = __or__

    def __bool__(self):
        if HOOKS.branch is None:
            raise Unsupported('branch on a symbolic condition outside an exploration')
        return HOOKS.branch(self)

    def vars(self):
        vs = set()
        if self.kind == 'cmp':
            for p in self.args:
                vs.update(pvars(p))
        else:
            for a in self.args:
                vs |= a.vars()
        return vs

    def __repr__(self):
        if self.kind == 'cmp':
            return '(%s %s 0)' % (' * '.join('(%s)' % showp(p) for p in self.args), self.op)
        return '(%s %s)' % (self.kind, ' '.join(map(repr, self.args)))


def compare(x, op):
    """x op 0 for op in '<', '<=', '=', '!='. Plain bool when decided by signs."""
    s = x.sign()
    if op == '<':
        if s == '-':
            return True
        if s in ('+', '0+', '0'):
            return False
    elif op == '<=':
        if s in ('-', '0-', '0'):
            return True
        if s == '+':
            return False
    elif op == '=':
        if s == '0':
            return True
        if s in ('+', '-'):
            return False
    elif op == '!=':
        if s == '0':
            return False
        if s in ('+', '-'):
            return True
    if x.is_const:
        f = x.const()
        return {'<': f < 0, '<=': f <= 0, '=': f == 0, '!=': f != 0}[op]
    n = x.n
    args = []
    if op in ('<', '<='):
        flip = False
        for f, e in x.d:
            if e & 1:
                fs = FSIGN[f]
                if fs in ('+', '0+'):
                    continue
                if fs in ('-', '0-'):
                    flip = not flip
                    continue
                args.append(FACT[f])
        if flip:
            n = {m: -c for m, c in n.items()}
    g = pcontent(n)
    if g != 1:
        n = {m: c // g for m, c in n.items()}
    if op in ('=', '!=') and n[max(n)] < 0:
        n = {m: -c for m, c in n.items()}
    return SymBool('cmp', op, [n] + args)


def conj(bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            if b.kind == 'and':
                out.extend(b.args)
            else:
                out.append(b)
        elif not bool(b):
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else SymBool('and', None, out)


def disj(bs):
    out = []
    for b in bs:
        if isinstance(b, SymBool):
            if b.kind == 'or':
                out.extend(b.args)
            else:
                out.append(b)
        elif bool(b):
            return True
    if not out:
        return False
    return out[0] if len(out) == 1 else SymBool('or', None, out)


def neg(b):
    return b.negate() if isinstance(b, SymBool) else (not b)


# ------------------------------------------------------------------ printing and evaluation
def showp(p):
    if not p:
        return '0'
    t = []
    for m, c in list(sorted(p.items(), reverse=True))[:12]:
        t.append('*'.join(([str(c)] if c != 1 or m == 0 else []) + [VARS[i].name + ('^%d' % e if e > 1 else '') for i, e in mono_vars(m)]))
    return ' + '.join(t) + (' + ... (%d terms)' % len(p) if len(p) > 12 else '')


def show(a):
    s = '(%s)' % showp(a.n)
    if a.c != 1 or a.d:
        s += '/(%s)' % '*'.join(([str(a.c)] if a.c != 1 else []) + ['(%s)^%d' % (showp(FACT[f]), e) for f, e in a.d])
    return s


def eval_poly(p, val):
    tot = 0
    cache = {}
    for m, c in p.items():
        t = c
        for i, e in mono_vars(m):
            k = (i, e)
            x = cache.get(k)
            if x is None:
                x = cache[k] = val(i) ** e
            t = t * x
        tot = tot + t
    return tot


class Evaluator:
    """Evaluates Syms under an assignment {base var idx: Fraction}; atoms numerically."""

    def __init__(self, values, default=None):
        self.values = dict(values)
        self.default = default
        self.cache = {}

    def var(self, i):
        if i in self.values:
            return self.values[i]
        if i in self.cache:
            return self.cache[i]
        v = VARS[i]
        if v.kind == 'base':
            if self.default is None:
                raise KeyError(v.name)
            r = self.default(v)
        elif v.kind == 'sqrt':
            x = self.sym(v.data)
            r = Fraction(math.sqrt(x)) if x >= 0 else Fraction(0)
            if isinstance(x, Fraction) and x >= 0:
                a, b = _isqrt_exact(x.numerator), _isqrt_exact(x.denominator)
                if a is not None and b is not None:
                    r = Fraction(a, b)
        elif v.kind in ('sin', 'cos'):
            r = Fraction(getattr(math, v.kind)(float(self.sym(TRIGARG[i]))))
        else:
            a = [float(self.sym(s)) for s in v.data]
            f = {'exp': math.exp, 'log': math.log, 'atan2': math.atan2, 'atan': math.atan, 'tanh': math.tanh,
                 'pow': math.pow, 'mod': lambda x, y: x % y}[v.kind]
            r = Fraction(f(*a))
        self.cache[i] = r
        return r

    def poly(self, p):
        return eval_poly(p, self.var)

    def sym(self, a):
        if not isinstance(a, Sym):
            a = coerce(a)
        n = Fraction(self.poly(a.n), 1) / a.c
        for f, e in a.d:
            n = n / (Fraction(self.poly(FACT[f])) ** e)
        return n

    def bool(self, b):
        if not isinstance(b, SymBool):
            return bool(b)
        if b.kind == 'cmp':
            x = 1
            for p in b.args:
                x = x * self.poly(p)
            return {'<': x < 0, '<=': x <= 0, '=': x == 0, '!=': x != 0}[b.op]
        if b.kind == 'and':
            return all(self.bool(a) for a in b.args)
        if b.kind == 'or':
            return any(self.bool(a) for a in b.args)
        return not self.bool(b.args[0])


def whole_part(s, how):
    """A whole number near a value: a branch for each of the numbers around zero, the witness's value beyond them."""
    if s.is_const:
        c = s.const()
        return {'floor': math.floor, 'trunc': int, 'rint': round}[how](c)
    if how == 'trunc':
        return whole_part(s, 'floor') if bool(s >= 0) else -whole_part(-s, 'floor')
    half = from_fraction(Fraction(1, 2))
    if HOOKS.branch is not None:
        for k in (0, -1, 1, -2, 2, -3, 3):
            if how == 'floor':
                c = [s >= k, s < k + 1]
            else:
                c = [s >= k - half, s <= k + half] if k % 2 == 0 else [s > k - half, s < k + half]
            c = conj([x for x in c if not (isinstance(x, bool) and x)])
            if bool(c):
                return k
    x = float(s)
    return math.floor(x) if how == 'floor' else int(round(x))


def closure(vs):
    """All variables needed to define the given ones (radicands, arguments)."""
    todo, out = list(vs), set()
    while todo:
        i = todo.pop()
        if i in out:
            continue
        out.add(i)
        v = VARS[i]
        if v.kind == 'base':
            continue
        if v.kind == 'sqrt':
            todo.extend(v.data.vars())
        elif v.kind == 'sin':
            todo.extend(v.data.vars())
            todo.extend(TRIGARG[i].vars())
        else:
            for a in v.data:
                todo.extend(a.vars())
    return out
