"""SMT queries over Syms: printing to SMT-LIB2 and talking to z3 (and cvc5 as second opinion)."""
import os
import re
import select
import subprocess
import time
from fractions import Fraction

from . import core
from .core import VARS, FACT, mono_vars, SymBool, Sym, closure, eval_poly

STATS = dict(queries=0, unsat=0, sat=0, unknown=0, errors=0, seconds=0.0, cached=0, cvc5_checked=0, cvc5_agree=0,
             cvc5_unknown=0, cvc5_disagree=0)

Z3 = os.environ.get('VERIF_Z3', 'z3-new')


def num(k):
    return str(k) if k >= 0 else '(- %d)' % -k


def poly(p):
    if not p:
        return '0'
    ts = []
    for m, c in p.items():
        fs = []
        for i, e in mono_vars(m):
            fs += [VARS[i].smt] * e
        if not fs:
            ts.append(num(c))
        elif c == 1:
            ts.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
        else:
            ts.append('(* %s %s)' % (num(c), ' '.join(fs)))
    return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)


def product(ps):
    ps = [poly(p) for p in ps]
    return ps[0] if len(ps) == 1 else '(* %s)' % ' '.join(ps)


def boolean(b):
    if not isinstance(b, SymBool):
        return 'true' if b else 'false'
    if b.kind == 'cmp':
        if b.op in ('=', '!='):
            s = '(or %s)' % ' '.join('(= %s 0)' % poly(p) for p in b.args) if len(b.args) > 1 \
                else '(= %s 0)' % poly(b.args[0])
            return s if b.op == '=' else '(not %s)' % s
        return '(%s %s 0)' % (b.op, product(b.args))
    if b.kind == 'not':
        return '(not %s)' % boolean(b.args[0])
    return '(%s %s)' % (b.kind, ' '.join(map(boolean, b.args)))


def side(d, skip):
    """The product of the denominator factors of d that are not in `skip`, as SMT terms."""
    out = []
    for f, e in d.items():
        for _ in range(e - skip.get(f, 0)):
            out.append(poly(FACT[f]))
    return out


def mul(ts):
    ts = [t for t in ts if t != '1']
    if not ts:
        return '1'
    return ts[0] if len(ts) == 1 else '(* %s)' % ' '.join(ts)


def cross(a, b):
    """Two SMT terms equal iff a == b (denominators nonzero): a.n*b.den and b.n*a.den, common factors removed."""
    da, db = dict(a.d), dict(b.d)
    common = {f: min(e, db.get(f, 0)) for f, e in da.items()}
    l = mul([poly(a.n), num(b.c)] + side(db, common))
    r = mul([poly(b.n), num(a.c)] + side(da, common))
    return l, r


def definitions(vs):
    """Constraints defining the atoms among vs (closed)."""
    out = []
    for i in sorted(vs):
        v = VARS[i]
        s = v.smt
        if v.sign == '+':
            out.append('(> %s 0)' % s)
        elif v.sign == '0+':
            out.append('(>= %s 0)' % s)
        elif v.sign == '!':
            out.append('(not (= %s 0))' % s)
        if v.lo is not None:
            out.append('(>= %s %s)' % (s, frac(v.lo)))
        if v.hi is not None:
            out.append('(<= %s %s)' % (s, frac(v.hi)))
        if v.kind == 'sqrt':
            sq = Sym({2 * v.one: 1}, 1, ())
            l, r = cross(sq, v.data)
            out.append('(= %s %s)' % (l, r))
        elif v.kind == 'sin':
            l, r = cross(Sym({2 * v.one: 1}, 1, ()), v.data)
            out.append('(= %s %s)' % (l, r))
        elif v.kind == 'cos':
            out.append('(and (<= %s 1) (>= %s (- 1)))' % (s, s))
        elif v.kind == 'tanh':
            out.append('(and (< %s 1) (> %s (- 1)))' % (s, s))
        elif v.kind in ('atan2', 'atan'):
            out.append('(and (<= %s 3.1415927) (>= %s (- 3.1415927)))' % (s, s))
    return out


def frac(f):
    f = Fraction(f)
    a = '(/ %d %d)' % (abs(f.numerator), f.denominator) if f.denominator != 1 else '%d' % abs(f.numerator)
    return '(- %s)' % a if f < 0 else a


def build(conds, nonzero=(), extra=(), pins=None, with_atoms=True):
    """conds: SymBools; extra: (smt text, var set).  Returns (text, vars)."""
    vs = set()
    body = []
    for b in conds:
        if isinstance(b, SymBool):
            vs |= b.vars()
        body.append('(assert %s)' % boolean(b))
    for t, tv in extra:
        vs |= tv
        body.append('(assert %s)' % t)
    vs = closure(vs)
    # side conditions only about variables in play
    for p in nonzero:
        pv = set(core.pvars(p))
        if pv <= vs:
            body.append('(assert (not (= %s 0)))' % poly(p))
    vs = closure(vs)
    for d in definitions(vs):
        body.append('(assert %s)' % d)
    for i, val in (pins or {}).items():
        if i in vs:
            body.append('(assert (= %s %s))' % (VARS[i].smt, frac(val)))
    decl = ['(declare-const %s Real)' % VARS[i].smt for i in sorted(vs)]
    return '\n'.join(decl + body), vs


class Proc:
    def __init__(self, cmd):
        self.cmd = cmd
        self.p = None

    def start(self):
        self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, bufsize=0)

    def kill(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
        self.p = None

    def ask(self, text, wall):
        """Send text followed by an echo; the output up to the echo, or None on timeout."""
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = (text + '\n(echo "<done>")\n').encode()
        fd_in, fd = self.p.stdin.fileno(), self.p.stdout.fileno()
        os.set_blocking(fd_in, False)
        out = b''
        end = time.time() + wall
        pos = 0
        while True:
            left = end - time.time()
            if left <= 0:
                self.kill()
                return None
            w = [fd_in] if pos < len(data) else []
            r, ww, _ = select.select([fd], w, [], left)
            if ww:
                try:
                    pos += os.write(fd_in, data[pos:pos + 65536])
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    self.kill()
                    return None
            if r:
                b = os.read(fd, 65536)
                if not b:
                    self.kill()
                    return None
                out += b
                if b'<done>' in out[-16:]:
                    return out.decode().rsplit('<done>', 1)[0]


_z3 = Proc([Z3, '-in', '-memory:4000'])
_CACHE = {}
CROSS = os.environ.get('VERIF_CVC5') == '1'


def parse_val(s):
    toks = re.findall(r'\(|\)|[^\s()]+', s)
    pos = 0

    def go():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t == '(':
            op = toks[pos]
            pos += 1
            if op == 'root-obj':
                raise ValueError
            args = []
            while toks[pos] != ')':
                args.append(go())
            pos += 1
            if op == '-':
                return -args[0] if len(args) == 1 else args[0] - args[1]
            if op == '/':
                return args[0] / args[1]
            raise ValueError(op)
        return Fraction(t.rstrip('?'))
    return go()


def solve(text, vs, timeout=10.0, want_model=False):
    """('unsat'|'sat'|'unknown', model or None)."""
    key = (text, want_model)
    if key in _CACHE:
        STATS['cached'] += 1
        return _CACHE[key]
    t0 = time.time()
    q = '(reset)\n(set-option :timeout %d)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n' \
        '(set-logic QF_NRA)\n%s\n(check-sat)' % (int(timeout * 1000), text)
    out = _z3.ask(q, timeout + 3)
    STATS['queries'] += 1
    res, model = 'unknown', None
    if out is not None:
        if '(error' in out:
            STATS['errors'] += 1
        else:
            w = out.split()
            res = w[-1] if w and w[-1] in ('sat', 'unsat') else 'unknown'
    if res == 'sat' and want_model and vs:
        names = [VARS[i].smt for i in sorted(vs) if VARS[i].kind == 'base']
        if names:
            mo = _z3.ask('(get-value (%s))' % ' '.join(names), 10)
            model = {}
            if mo and '(error' not in mo:
                for m in re.finditer(r'\((v\d+)\s+((?:\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\))|[^\s()]+)\)', mo):
                    try:
                        model[int(m.group(1)[1:])] = parse_val(m.group(2))
                    except Exception:
                        pass
        else:
            model = {}
    STATS[res] += 1
    STATS['seconds'] += time.time() - t0
    if CROSS and res == 'unsat':
        second_opinion(text)
    _CACHE[key] = (res, model)
    return res, model


def on_grid(text, vs, timeout):
    """A model whose inputs are small multiples of 1/8, or None."""
    base = [VARS[i] for i in sorted(vs) if VARS[i].kind == 'base']
    if not base or len(base) > 40:
        return None
    extra = ''.join('(declare-const g_%s Int)(assert (<= (- 64) g_%s 64))(assert (= (* 8 %s) (to_real g_%s)))\n' % ((v.smt,) * 4) for v in base)
    q = '(reset)\n(set-option :timeout %d)\n%s\n%s(check-sat)' % (int(timeout * 1000), text, extra)
    key = (q, 'grid')
    if key in _CACHE:
        return _CACHE[key]
    t0 = time.time()
    out = _z3.ask(q, timeout + 3)
    STATS['queries'] += 1
    model = None
    if out is not None and out.split()[-1:] == ['sat']:
        mo = _z3.ask('(get-value (%s))' % ' '.join('g_' + v.smt for v in base), 10)
        model = {}
        for m in re.finditer(r'\(g_(v\d+)\s+(\d+|\(-\s+\d+\))\)', mo or ''):
            model[int(m.group(1)[1:])] = parse_val(m.group(2)) / 8
        if len(model) != len(base):
            model = None
    STATS['seconds'] += time.time() - t0
    _CACHE[key] = model
    return model


def second_opinion(text, timeout=10):
    STATS['cvc5_checked'] += 1
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % (timeout * 1000), '-'],
                           input='(set-logic QF_NRA)\n%s\n(check-sat)\n' % text,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, timeout=timeout + 5)
        o = p.stdout.split()
        r = o[0] if o else 'unknown'
    except Exception:
        r = 'unknown'
    if r == 'unsat':
        STATS['cvc5_agree'] += 1
    elif r == 'sat':
        STATS['cvc5_disagree'] += 1
    else:
        STATS['cvc5_unknown'] += 1


def close():
    _z3.kill()
