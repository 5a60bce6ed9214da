"""Path exploration by re-execution, and discharge of the obligations of each path with the SMT solver."""
import math
import random
import time
import traceback
import zlib
from fractions import Fraction

import numpy as np

from . import core, smt, shim
from .values import nice, ij, args, Arrays
from .core import (Sym, SymBool, HOOKS, Unsupported, PathInfeasible, coerce, VARS, Evaluator, conj, disj)


class Abort(BaseException):
    """Stop this path (budget spent)."""


def as_sym_array(a):
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        x = a[i]
        if isinstance(x, np.ndarray):
            x = x.item()
        y = coerce(x)
        if y is None:
            raise Unsupported('value of type %s in a numeric result' % type(x))
        out[i] = y
    return out


def equality(b):
    return b.op == '=' if b.kind == 'cmp' else b.kind == 'and' and any(isinstance(a, SymBool) and equality(a) for a in b.args)


def dyadic(x):
    d = Fraction(x).denominator
    return d <= 4096 and d & (d - 1) == 0


class SymCtx(Arrays):
    symbolic = True

    def __init__(self, ex, prefix, witness):
        self.ex, self.prefix, self.wit = ex, prefix, dict(witness or {})
        self.layout = ex.params.get('layout')
        self.wit_valid = True
        self.nd = 0
        self.decisions = []
        self.conds = []            # assumptions and branch decisions (SymBool), in order
        self.cond_keys = {}
        self.nonzero_polys = []
        self.nz_keys = set()
        self.obls = []
        self.observed = {}
        self.perturbed = False
        self.fns = []
        self.cong, self.cong_keys = [], set()     # functions are functions: constraints added when a model needs them
        self.concretised = []
        self.assumed = []
        self.pending = []
        self.exc = None
        self.k = 0
        self._ev = None
        self.strict_singular = False
        self.cut = None

    # ------------------------------------------------ inputs
    def real(self, name, sign=None, hint=None, lo=None, hi=None):
        pin = self.ex.pin(name)
        if pin is not None:
            v = self.wit.get(name)
            if v is None:
                v = self.wit[name] = nice(name, sign, self.ex.seed, self.k, hint, lo, hi)
            if sign is None and lo is None and hi is None:
                pass
            self.ex.pinned.add(name)
            return core.from_fraction(Fraction(v))
        s = core.var(name, sign, hint, lo, hi)
        if name not in self.wit:
            self.wit[name] = nice(name, sign, self.ex.seed, self.k, hint, lo, hi)
            self._ev = None
        return s

    def _vec(self, name, n, **kw):
        h = kw.pop('hint', None)
        return np.array([self.real('%s%d' % (name, i + 1), hint=None if h is None else h[i], **kw) for i in range(n)] + [None],
                        dtype=object)[:n].copy()

    def _mat(self, name, n, m, **kw):
        h = kw.pop('hint', None)
        out = np.empty((n, m), dtype=object)
        for i in range(n):
            for j in range(m):
                out[i, j] = self.real(ij(name, i, j), hint=None if h is None else h[i][j], **kw)
        return out

    @staticmethod
    def dominant(n):
        """Hints for an arbitrary square matrix: its witnesses have a large diagonal (else a large one is hardly ever definite)."""
        return [[Fraction(5, 2) + i + 2 * n - 2 if i == j and n > 3 else None for j in range(n)] for i in range(n)]

    def _sym(self, name, n, hint=None):
        """An arbitrary symmetric matrix."""
        out = np.empty((n, n), dtype=object)
        for i in range(n):
            for j in range(i, n):
                h = hint[i][j] if hint is not None else (Fraction(5, 2) + i + (2 * n - 2 if n > 3 else 0) if i == j else None)    # mostly positive definite
                out[i, j] = out[j, i] = self.real(ij(name, i, j), hint=h)
                if i != j and hint is None:
                    pass
        return out

    def _spd(self, name, n, scale=1):
        """An arbitrary symmetric positive-definite matrix, by its Cholesky factor."""
        L = np.empty((n, n), dtype=object)
        L[:] = core.ZERO
        for i in range(n):
            for j in range(i + 1):
                L[i, j] = self.real('%s_l%d%d' % (name, i + 1, j + 1), sign='+' if i == j else None)
        return (L @ L.T) * scale if scale != 1 else L @ L.T

    # ------------------------------------------------ arbitrary functions, moment-matching rules, random source
    def fn(self, name, din, dout, style='batch', **kw):
        from .ops import SymFn
        return SymFn(self, name, din, dout, style, **kw)

    def transform(self, name, din, dout, **kw):
        from .ops import SymTransform
        return SymTransform(self, name, din, dout, **kw)

    def source(self, name='w'):
        from .ops import Source
        return Source(self, name)

    def perturb(self):
        from .ops import Perturb
        self.perturbed = True      # the replay uses tiny errors instead: values are not comparable, assertions are
        return Perturb(self)

    def strict(self):
        """Singular matrices matter from here on: inverses branch on a zero determinant."""
        from . import shim
        shim.STRICT_SINGULAR[0] = True

    # ------------------------------------------------ assumptions, facts
    def assume(self, b, why=None):
        if why:
            self.ex.assumptions.add(why)
        if not isinstance(b, SymBool):
            if not b:
                raise PathInfeasible('assumption is false')
            return
        if b.key in self.cond_keys:
            if self.cond_keys[b.key]:
                return
            raise PathInfeasible('assumption contradicts the path')
        self._add(b)
        ok = self._holds(b)
        if ok is not True:
            self._new_witness(must=ok is False)

    def assume_pd(self, M, why=None):
        M = as_sym_array(M)
        for m in minors(M):
            self.assume(m > 0, why)

    def _add(self, b):
        self.conds.append(b)
        self.cond_keys[b.key] = True
        self.cond_keys[b.negate().key] = False
        if b.kind == 'and':
            for a in b.args:
                self._fact(a)
        else:
            self._fact(b)

    def _fact(self, b):
        if b.kind != 'cmp' or len(b.args) != 1:
            return
        p = b.args[0]
        self.cond_keys.setdefault(b.key, True)
        self.cond_keys.setdefault(b.negate().key, False)
        if b.op == '<':
            core.add_fact({m: -c for m, c in p.items()}, '+')
        elif b.op == '<=':
            core.add_fact({m: -c for m, c in p.items()}, '0+')
        elif b.op == '!=':
            core.add_fact(p, '!')

    # ------------------------------------------------ witness
    def values(self):
        return {i: self.wit[v.name] for i, v in enumerate(VARS) if v.kind == 'base' and v.name in self.wit}

    def ev(self):
        if self._ev is None or self._ev[1] != len(VARS):
            self._ev = (Evaluator(self.values(), default=self._default), len(VARS))
        return self._ev[0]

    def _default(self, v):
        r = self.wit[v.name] = nice(v.name, v.sign, self.ex.seed, self.k, v.hint, v.lo, v.hi)
        return r

    def _holds(self, b):
        """True / False / None under the witness (None: cannot tell, or no witness)."""
        if not self.wit_valid:
            return None
        try:
            return self.ev().bool(b)
        except (ZeroDivisionError, ValueError, OverflowError):
            return None

    def _new_witness(self, must=False):
        """Look for a witness of the assumptions so far."""
        old = dict(self.wit)
        for k in range(1, 13):
            self.k = k
            self.wit = {n: old[n] for n in old if n in self.ex.pinned}
            self._ev = None
            try:
                if all(self.ev().bool(c) for c in self.conds):
                    self.wit_valid = True
                    return
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
        self.k = 0
        self.wit = old
        self._ev = None
        res, w = self.ask(self.conds, self.ex.t_feas, want=True)
        if res == 'unsat':
            raise PathInfeasible('assumptions are contradictory')
        if res == 'sat' and w is not None:
            self.wit.update(w)
            self._ev = None
            self.wit_valid = True
        else:
            self.wit_valid = False

    def ask(self, conds, timeout, want=False, extra=(), pins=None):
        extra = list(extra) + self.cong
        text, vs = smt.build(conds, self.nonzero_polys, extra, pins)
        res, model = smt.solve(text, vs, timeout, want)
        if model and not pins and any(isinstance(c, SymBool) and equality(c) for c in conds) and not all(dyadic(x) for x in model.values()):
            # an equality holds in floating point only at values that are exact there
            grid, _ = smt.build(conds, self.nonzero_polys, extra, pins)
            model = smt.on_grid(grid, vs, min(timeout, 2.0)) or model
        w = None
        if model is not None:
            w = {VARS[i].name: x for i, x in model.items()}
        return res, w

    # ------------------------------------------------ hooks
    def check_abort(self):
        if HOOKS.aborted is not None:
            raise HOOKS.aborted
        if time.time() > self.ex.deadline:
            HOOKS.aborted = Abort('time budget of the scenario')
            raise HOOKS.aborted

    def nonzero(self, b):
        self.check_abort()
        k = frozenset(b.n.items())
        if k not in self.nz_keys:
            self.nz_keys.add(k)
            self.nonzero_polys.append(b.n)
            core.add_fact(b.n, '!')

    def concretise(self, s):
        self.check_abort()
        if not self.wit_valid:
            raise Unsupported('float() of a symbolic value without a witness')
        ev = self.ev()
        x = ev.sym(s)
        vs = core.closure(s.vars())
        for i in sorted(vs):
            if VARS[i].kind == 'base':
                b = core.compare(core.of_var(VARS[i]) - core.from_fraction(Fraction(self.wit[VARS[i].name])), '=')
                if isinstance(b, SymBool) and b.key not in self.cond_keys:
                    self._add(b)
        self.concretised.append(core.show(s)[:80])
        return x

    def branch(self, b):
        self.check_abort()
        d = self.cond_keys.get(b.key)
        if d is not None:
            return d
        i = self.nd
        self.nd += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            self.decisions.append(d)
            self._add(b if d else b.negate())
            if self._holds(b) not in (None, d):
                self._new_witness()
            return d
        h = self._holds(b)
        if h is None:
            # no usable witness: ask for both sides
            rt, wt = self.ask(self.conds + [b], self.ex.t_feas, True)
            if rt == 'unsat':
                h = False
                self.ex.stats['infeasible'] += 1
                self.decisions.append(h)
                self._add(b.negate())
                return h
            rf, wf = self.ask(self.conds + [b.negate()], self.ex.t_feas, True)
            h = True
            if rf != 'unsat':
                self._push(False, wf if rf == 'sat' else None)
            else:
                self.ex.stats['infeasible'] += 1
            if wt is not None:
                self.wit.update(wt)
                self._ev = None
                self.wit_valid = True
        else:
            nb = b.negate() if h else b
            r, w = self.ask(self.conds + [nb], self.ex.t_feas, True)
            if r == 'unsat':
                self.ex.stats['infeasible'] += 1
            else:
                if r == 'unknown':
                    self.ex.stats['unknown_feasibility'] += 1
                self._push(not h, w if r == 'sat' else None)
        self.decisions.append(h)
        self._add(b if h else b.negate())
        return h

    def _push(self, d, w):
        wit = dict(self.wit)
        if w:
            wit.update(w)
        self.pending.append((list(self.decisions) + [d], wit, w is not None))

    # ------------------------------------------------ obligations
    def eq(self, label, got, exp, tol=1e-6):
        """got == exp, elementwise and in shape."""
        self.check_abort()
        self.observe(label, got)
        try:
            g, e = as_sym_array(got), as_sym_array(exp)
        except Unsupported:
            HOOKS.aborted = None
            self.obls.append(dict(label=label, kind='true', cond=False, note='not numeric: %r' % (got,)))
            return
        if g.shape != e.shape:
            self.obls.append(dict(label=label, kind='true', cond=False,
                                  note='shape %s instead of %s' % (g.shape, e.shape)))
            return
        for i in np.ndindex(*g.shape):
            self.obls.append(dict(label=label + (str(list(i)) if i else ''), base=label, at=int(np.ravel_multi_index(i, g.shape)) if i else 0, kind='eq', got=g[i], exp=e[i], tol=tol))

    def true(self, label, cond, note=None):
        self.check_abort()
        self.obls.append(dict(label=label, kind='true', cond=cond, note=note))

    def observe(self, label, got):
        try:
            self.observed[label] = as_sym_array(got)
        except Unsupported:
            HOOKS.aborted = None

    def fail(self, label, note=None):
        self.true(label, False, note)

    def decide(self, cond):
        """Branch of the harness on a condition."""
        return bool(cond)

    def choose(self, name, n):
        """A symbolic choice among 0..n-1; every value is explored."""
        v = self.real(name, lo=0, hi=n - 1, hint=0)
        for i in range(n - 1):
            if bool(v < Fraction(2 * i + 1, 2)):
                return i
        return n - 1

    def same(self, a, b):
        """Are two values identical expressions?  (Used to recognise things, not to decide a property.)"""
        a, b = as_sym_array(a), as_sym_array(b)
        return a.shape == b.shape and all(x.key == y.key for x, y in zip(a.ravel(), b.ravel()))

    # ------------------------------------------------ reference arithmetic for the oracles
    def inv(self, M):
        from .shim import mat_inv
        return mat_inv(as_sym_array(M))

    def det(self, M):
        from .shim import mat_det
        return mat_det(as_sym_array(M))

    def sqrt(self, x):
        return coerce(x).sqrt()

    def log(self, x):
        return coerce(x).log()

    def sin(self, x):
        return coerce(x).sin()

    def cos(self, x):
        return coerce(x).cos()

    def atan2(self, y, x):
        return coerce(y).arctan2(x)

    def const(self, x):
        return coerce(x)

    def array(self, x):
        return as_sym_array(np.array(x, dtype=object))

    def minors(self, M):
        return minors(as_sym_array(M))

    def clash(self, ev):
        """Do these inputs give one of the functions two values at one argument?  The constraint that they do not is added."""
        from . import ops
        hit = False
        for f in self.fns:
            if len(f.rows) < 2 or not hasattr(f, 'args'):
                continue
            try:
                pairs = ops.clashes(f.rows.values(), f.args, f.vals, ev)
            except (ZeroDivisionError, ValueError, OverflowError):
                continue
            for q, r in pairs:
                hit = True
                k = (id(q), id(r))
                if k not in self.cong_keys and len(self.cong) < 200:
                    self.cong_keys.add(k)
                    self.cong.append(ops.congruent(q, r, f.args, f.vals))
        return hit

    # ------------------------------------------------ end of path
    def assignment(self, over=None, tables=True):
        """The concrete inputs of a counterexample or witness: names to rationals, and function tables."""
        wit = dict(self.wit)
        if over:
            wit.update(over)
        vals = {}
        for i, v in enumerate(VARS):
            if v.kind == 'base':
                if v.name not in wit:
                    wit[v.name] = nice(v.name, v.sign, self.ex.seed, 0, v.hint, v.lo, v.hi)
                vals[i] = Fraction(wit[v.name])
        ev = Evaluator(vals, default=lambda v: Fraction(0))
        tabs = []
        for f in self.fns:
            tabs.append(f.table(ev))
        names = {n: '%d/%d' % (Fraction(x).numerator, Fraction(x).denominator) for n, x in wit.items()}
        return dict(values=names, tables=tabs, seed=self.ex.seed), ev


def minors(M):
    """Leading principal minors."""
    from .shim import mat_det
    return [mat_det(M[:k, :k]) for k in range(1, M.shape[0] + 1)]


def atom_pins(ev, vs, base):
    """Pin base variables exactly and the other atoms to small intervals around their numeric value."""
    out = []
    for i in sorted(vs):
        v = VARS[i]
        if v.kind == 'base':
            x = ev.var(i)
            out.append(('(= %s %s)' % (v.smt, smt.frac(Fraction(x))), {i}))
        elif v.kind not in ('sqrt',):
            x = Fraction(ev.var(i)).limit_denominator(10 ** 15)
            d = max(abs(x), Fraction(1)) / 10 ** 9
            out.append(('(and (< %s %s) (> %s %s))' % (v.smt, smt.frac(x + d), v.smt, smt.frac(x - d)), {i}))
    return out


class Explorer:
    def __init__(self, fn, params, seed=1, tier='quick', budget=60.0, max_paths=200, pins=None, t_feas=2.0, t_vc=8.0):
        self.fn, self.params, self.seed, self.tier = fn, params, seed, tier
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.pins = pins              # None, or a predicate name -> bool
        self.t_feas, self.t_vc = t_feas, t_vc
        self.assumptions = set()
        self.pinned = set()
        self.fixed_witness = {}
        self.stats = dict(paths=0, infeasible=0, unknown_feasibility=0, branches=0, obligations=0, discharged=0,
                          within_tolerance=0, reduced=0, concretised=0, nonzero_conditions=0, cut=0, truncated=0,
                          unwitnessed=0)
        self.candidates = []
        self.witnesses = []
        self.inconclusive = []
        self.samples = []
        self.reductions = []

    def pin(self, name):
        return True if self.pins is not None and self.pins(name) else None

    def run(self):
        stack = [([], {}, True)]
        while stack:
            if self.stats['paths'] >= self.max_paths or time.time() > self.deadline:
                self.stats['truncated'] += len(stack)
                break
            prefix, wit, valid = stack.pop()
            ctx = self.one(prefix, wit, valid)
            stack.extend(ctx.pending)
        return self

    def one(self, prefix, wit, valid):
        core.reset()
        shim.reset()
        ctx = SymCtx(self, prefix, wit)
        ctx.wit_valid = valid
        HOOKS.branch, HOOKS.nonzero, HOOKS.concretise = ctx.branch, ctx.nonzero, ctx.concretise
        feasible = True
        shim.IN_PATH[0] = True
        try:
            self.fn(ctx, **args(self.params))
            if HOOKS.aborted is not None:
                raise HOOKS.aborted
        except PathInfeasible:
            feasible = False
        except Abort as e:
            ctx.cut = 'budget'
        except Unsupported as e:
            ctx.cut = str(e)
        except Exception as e:
            if HOOKS.aborted is not None:
                ctx.cut = str(HOOKS.aborted)
            else:
                tb = traceback.extract_tb(e.__traceback__)
                where = ['%s:%s' % (f.filename.rsplit('/', 1)[-1], f.lineno) for f in tb[-3:]]
                ctx.exc = '%s: %s at %s' % (type(e).__name__, str(e)[:200], ' < '.join(reversed(where)))
        shim.IN_PATH[0] = False
        HOOKS.aborted = None
        HOOKS.branch = None
        if not feasible:
            self.stats['infeasible'] += 1
            return ctx
        self.stats['paths'] += 1
        self.stats['branches'] += len(ctx.decisions)
        self.stats['concretised'] += len(ctx.concretised)
        self.stats['nonzero_conditions'] += len(ctx.nonzero_polys)
        if ctx.concretised:
            self.reductions.append('concretised: ' + '; '.join(ctx.concretised[:3]))
        self.finish(ctx)
        return ctx

    # ------------------------------------------------ discharge
    def finish(self, ctx):
        wit_ok = ctx.wit_valid and all(ctx._holds(c) is not False for c in ctx.conds)
        if not wit_ok:
            ctx._ev = None
            try:
                ctx._new_witness()
                wit_ok = ctx.wit_valid
            except PathInfeasible:
                self.stats['paths'] -= 1
                self.stats['infeasible'] += 1
                return
        for _ in range(6):
            if not wit_ok or not ctx.clash(ctx.ev()):
                break
            res, w = ctx.ask(ctx.conds, self.t_feas, True)
            if res == 'unsat':
                self.stats['paths'] -= 1
                self.stats['infeasible'] += 1
                return
            wit_ok = res == 'sat' and w is not None
            if wit_ok:
                ctx.wit.update(w)
                ctx._ev = None
        if wit_ok:
            try:
                a, ev = ctx.assignment()
                obs = {}
                for l, arr in ({} if ctx.perturbed else ctx.observed).items():
                    try:
                        obs[l] = [float(ev.sym(x)) for x in arr.ravel()]
                    except (ZeroDivisionError, ValueError, OverflowError):
                        pass
                a.update(params=self.params, observed=obs, path=ctx.decisions,
                         exc=ctx.exc, cut=ctx.cut, exact=not ctx.cut and not ctx.exc, edge=self.edge(ctx, ev))
                self.witnesses.append(a)
            except (ZeroDivisionError, ValueError, OverflowError):
                wit_ok = False
        if not wit_ok:
            self.stats['unwitnessed'] += 1
        if ctx.cut:
            self.stats['cut'] += 1
            self.inconclusive.append('path cut: ' + ctx.cut)
        if ctx.exc:
            # an exception the harness does not expect: the path must be infeasible, or it is a candidate
            self.stats['obligations'] += 1
            if wit_ok:
                self.candidate(ctx, 'no exception', {}, ctx.exc)
            else:
                res, w = ctx.ask(ctx.conds, self.t_vc, True)
                if res == 'unsat':
                    self.stats['discharged'] += 1
                elif res == 'sat' and w is not None:
                    self.candidate(ctx, 'no exception', w, ctx.exc)
                else:
                    self.inconclusive.append('exception on a path of unknown feasibility: ' + ctx.exc)
        todo = ctx.obls
        self.stats['obligations'] += len(todo)
        if not todo:
            return
        if len(self.samples) < 4:
            o = todo[len(todo) // 2]
            self.samples.append(dict(path=len(ctx.decisions), conditions=[repr(c)[:160] for c in ctx.conds[:4]],
                                     label=o['label'],
                                     assertion=('%s == %s' % (core.show(o['got'])[:200], core.show(o['exp'])[:200]))
                                     if o['kind'] == 'eq' else repr(o['cond'])[:200]))
        # one query for everything first
        neg = []
        vs = set()
        hard = False
        for o in todo:
            if o['kind'] == 'eq':
                l, r = smt.cross(o['got'], o['exp'])
                neg.append('(not (= %s %s))' % (l, r))
                vs |= o['got'].vars() | o['exp'].vars()
                if o['got'].key != o['exp'].key:
                    hard = True
            else:
                c = o['cond']
                if isinstance(c, SymBool):
                    neg.append('(not %s)' % smt.boolean(c))
                    vs |= c.vars()
                    hard = True
                else:
                    neg.append('false' if c else 'true')
                    if not c:
                        hard = True
        q = neg[0] if len(neg) == 1 else '(or %s)' % ' '.join(neg)
        rel = self.relevant(ctx, vs) if hard else []
        res, _ = ctx.ask(rel, self.t_vc if not hard else min(self.t_vc, 3.0), extra=[(q, vs)])
        if res == 'unsat':
            self.stats['discharged'] += len(todo)
            return
        for o, n in zip(todo, neg):
            self.single(ctx, o, n, wit_ok)

    def relevant(self, ctx, vs):
        return ctx.conds

    def single(self, ctx, o, n, wit_ok):
        if o['kind'] == 'eq':
            vs = o['got'].vars() | o['exp'].vars()
            d = o['got'] - o['exp']
            if not d.n:
                self.stats['discharged'] += 1
                return
        else:
            c = o['cond']
            vs = c.vars() if isinstance(c, SymBool) else set()
            if not isinstance(c, SymBool) and c:
                self.stats['discharged'] += 1
                return
        found = False
        if wit_ok:
            found = self.at_point(ctx, o, n, vs, {})
        left = self.deadline - time.time()
        if found:
            # enough for a candidate; a second one from other values helps if the first is a numerical corner
            self.random_points(ctx, o, n, vs, 4, stop=1)
            return
        if left < 0:
            self.inconclusive.append('budget spent before ' + o['label'])
            return
        for _ in range(6):
            res, w = ctx.ask(ctx.conds, min(self.t_vc, max(1.0, left)), True, extra=[(n, vs)])
            if res != 'sat' or w is None or not ctx.clash(ctx.assignment(w, tables=False)[1]):
                break
        if res == 'unsat':
            self.stats['discharged'] += 1
            return
        if res == 'sat' and w is not None:
            if o['kind'] == 'true':
                self.candidate(ctx, o['label'], w, o.get('note') or repr(o.get('cond'))[:200])
                return
            if self.gap_ok(ctx, o, w):
                self.candidate(ctx, o['label'], w, self.describe(o), of=o)
                return
        if self.random_points(ctx, o, n, vs, 10):
            return
        if o['kind'] == 'eq':
            # is there any point where the difference is visible?
            q, qv = self.gap_query(o)
            r2, w2 = ctx.ask(ctx.conds, min(self.t_vc, max(1.0, self.deadline - time.time())), True, extra=[(q, qv)])
            if r2 == 'unsat':
                self.stats['discharged'] += 1
                self.stats['within_tolerance'] += 1
                self.reductions.append('%s: equal within %g only' % (o['label'], o['tol']))
                return
            if r2 == 'sat' and w2 is not None:
                self.candidate(ctx, o['label'], w2, self.describe(o), of=o)
                return
        # reduced bound: fix variables until the solver decides
        names = sorted((VARS[i].name, i) for i in core.closure(vs) if VARS[i].kind == 'base')
        if wit_ok and names:
            rnd = random.Random(self.seed)
            rnd.shuffle(names)
            ev = ctx.ev()
            for share in (0.5, 0.75, 0.9):
                cut = names[:max(1, int(len(names) * share))]
                pins = {i: ev.var(i) for _, i in cut}
                r3, w3 = ctx.ask(ctx.conds, min(self.t_vc, max(1.0, self.deadline - time.time())), True,
                                 extra=[(n, vs)], pins=pins)
                if r3 == 'unsat':
                    self.stats['discharged'] += 1
                    self.stats['reduced'] += 1
                    self.reductions.append('%s: decided with %d of %d inputs fixed' % (o['label'], len(cut), len(names)))
                    return
                if r3 == 'sat' and w3 is not None:
                    if o['kind'] == 'true' or self.gap_ok(ctx, o, w3):
                        self.candidate(ctx, o['label'], w3, self.describe(o), of=o)
                        return
        self.inconclusive.append('solver gave no answer for ' + o['label'])

    def edge(self, ctx, ev):
        """Is a comparison of the path decided by less than rounding errors at this witness?"""
        def near(b):
            if not isinstance(b, SymBool):
                return False
            if b.kind != 'cmp':
                return any(near(a) for a in b.args)
            if sum(len(p) for p in b.args) > 400:
                return False
            if b.op in ('=', '!='):      # an equation with no rational solution: the witness only nearly fulfils it
                return any(ev.poly(p) != 0 and abs(ev.poly(p)) <= 1e-9 * sum(abs(ev.poly({m: c})) for m, c in p.items()) for p in b.args if len(p) > 1)
            return any(abs(ev.poly(p)) <= 1e-9 * sum(abs(ev.poly({m: c})) for m, c in p.items()) for p in b.args if len(p) > 1)
        return any(near(c) for c in ctx.conds) or any(near(o.get('cond')) for o in ctx.obls)

    def describe(self, o):
        if o['kind'] == 'eq':
            return 'computed %s, should be %s' % (core.show(o['got'])[:160], core.show(o['exp'])[:160])
        return o.get('note') or repr(o.get('cond'))[:200]

    def gap_query(self, o):
        d = o['got'] - o['exp']
        l = smt.poly(d.n)
        den = smt.mul([smt.num(d.c)] + [smt.poly(core.FACT[f]) for f, e in d.d for _ in range(e)])
        tol = smt.frac(Fraction(o['tol']).limit_denominator(10 ** 9))
        q = '(> (* %s %s) (* %s %s %s %s))' % (l, l, tol, tol, den, den)
        return q, d.vars()

    def gap(self, o, ev):
        try:
            g, e = ev.sym(o['got']), ev.sym(o['exp'])
        except (ZeroDivisionError, ValueError, OverflowError):
            return None
        return abs(g - e) / (1 + abs(g) + abs(e))

    def gap_ok(self, ctx, o, w):
        _, ev = ctx.assignment(w, tables=False)
        g = self.gap(o, ev)
        return g is not None and g > o['tol'] / 10

    def at_point(self, ctx, o, n, vs, over):
        """Is the obligation violated at these inputs?  The solver confirms (inputs fixed, atoms in small intervals)."""
        _, ev = ctx.assignment(over, tables=False)
        try:
            if over and not all(ev.bool(c) for c in ctx.conds):
                return False
            if o['kind'] == 'eq':
                g = self.gap(o, ev)
                if g is None or g < o['tol']:
                    return False
            elif isinstance(o['cond'], SymBool) and ev.bool(o['cond']):
                return False
        except (ZeroDivisionError, ValueError, OverflowError):
            return False
        if ctx.clash(ev):
            return False
        allv = set(vs)
        for c in ctx.conds:
            allv |= c.vars()
        allv = core.closure(allv)
        res, w = ctx.ask(ctx.conds, self.t_vc, False, extra=[(n, vs)] + atom_pins(ev, allv, None))
        if res == 'unsat':
            return False
        self.candidate(ctx, o['label'], over, self.describe(o), solver=res, of=o)
        return True

    def random_points(self, ctx, o, n, vs, tries, stop=1):
        hits = 0
        for k in range(1, tries + 1):
            over = {}
            for v in VARS:
                if v.kind == 'base' and not self.pin(v.name):
                    over[v.name] = nice(v.name, v.sign, self.seed, k + 20, v.hint, v.lo, v.hi)
            if self.at_point(ctx, o, n, vs, over):
                hits += 1
                if hits >= stop:
                    return True
        return hits > 0

    def candidate(self, ctx, label, over, note, solver='sat', of=None):
        try:
            a, ev = ctx.assignment(over)
        except (ZeroDivisionError, ValueError, OverflowError):
            return
        if sum(1 for c in self.candidates if c['label'] == label) >= 4:
            return
        a.update(params=self.params, label=label, note=note, solver=solver, path=ctx.decisions, exc=ctx.exc)
        if of is not None and of['kind'] == 'eq':
            try:      # the two values in exact arithmetic: floats that reproduce both confirm the difference at any scale
                a['predicted'] = [of['base'], of['at'], float(ev.sym(of['got'])), float(ev.sym(of['exp']))]
            except (ZeroDivisionError, ValueError, OverflowError):
                pass
        self.candidates.append(a)
