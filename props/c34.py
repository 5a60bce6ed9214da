"""C34: the results report summarises exactly the stored runs it names."""
import contextlib
import io
import os
import re
import runpy
import sqlite3
from decimal import Decimal

from props import scenario
from props.common import np
from props.c33 import SEEDS, replaced
from props.store import Store

NUM = r'(<sym [^>]*>|[-+.\w]+)'
POWERS = [1.0, 0.8, 0.6, 0.4, 0.2]
DIMS = [5, 10, 20, 40, 100, 200]
# database: table, key columns
FILES = {
    'ungm_final_2.db': ('UNGM_EXP', ('Transform', 'Seed', 'Iter', 'Power', 'Damping')),
    'bott_final_2.db': ('BOTT_EXP', ('Transform', 'Seed', 'Quantity', 'Iter', 'Power', 'Damping')),
    'L96_dim_experiment_3.db': ('L96_EXP', ('Transform', 'Seed', 'dim', 'Iter', 'Power', 'Damping')),
    'IEKS_ungm.db': ('UNGM_EXP', ('Seed', 'Iter')),
    'IEKS_bott.db': ('BOTT_EXP', ('Quantity', 'Seed', 'Iter')),
    'IEKS_L96.db': ('L96_EXP', ('dim', 'Seed', 'Iter'))}
TYPES = dict(Transform='TEXT', Quantity='TEXT', Seed='INT', dim='INT', Iter='REAL', Power='REAL', Damping='REAL')


def report():
    """What each line of the report stands for: (database, label, conditions)."""
    out = []
    for db, damping, extra in (('ungm_final_2.db', 0.2, {}), ('bott_final_2.db', 1.0, dict(Quantity='angle'))):
        out.append((db, 'Kalman Smoother', dict(Transform='MCT', Power=1.0, Damping=1.0, Iter=1, **extra)))
        out += [(db, 'Power EP (%1.1f)' % p, dict(Transform='MCT', Power=p, Damping=damping, Iter=50, **extra)) for p in POWERS]
    for dim in DIMS:
        out.append(('L96_dim_experiment_3.db', 'Kalman Smoother', dict(Transform='UT', Power=1.0, Damping=1.0, dim=dim, Iter=0)))
        out.append(('L96_dim_experiment_3.db', 'Power EP (1.0)', dict(Transform='UT', Power=1.0, Damping=1.0, dim=dim, Iter=9)))
    for db, cond in (('IEKS_ungm.db', dict(Iter=50)), ('IEKS_bott.db', dict(Quantity='angle', Iter=50)), ('IEKS_L96.db', dict(dim=20, Iter=10))):
        out += [(db, m, cond) for m in ('RMSE', 'NLL')]
    return out


def contents(ctx, n, few):
    """Rows of every database: symbolic scores for the runs of the report (n seeds; few: one seed less for some), others in between."""
    rows, names = {db: [] for db in FILES}, set()
    for db, (_, cols) in FILES.items():
        conds = []
        for d, _, c in report():
            if d == db and c not in conds:
                conds.append(c)
        full = dict(Transform=('TT', 'UT', 'MCT'), Quantity=('position', 'angle'), dim=(10, 20, 30, 400), Iter=(0, 2, 9, 51, 10, 49, 100, 50, 8, 60, 500), Power=(0.5, 0.6, 1.0), Damping=(0.2, 0.9, 1.0))
        seeds = SEEDS if 'Power' not in cols else SEEDS[:n]
        other = 0
        for ci, c in enumerate(conds):
            for si, seed in enumerate(seeds):
                if few and 'Power' in cols and ci % 2 and si == n - 1:
                    continue
                key = tuple(seed if k == 'Seed' else c[k] for k in cols)
                tag = '%s_%d_%d' % (db[:6].replace('_', ''), ci, si) if db != 'IEKS_bott.db' else 'b_%d_%d' % (ci, si)
                v = (ctx.real(tag + 'r', '+', hint=1 + (ci + 2 * si) % 7 / 4), ctx.real(tag + 'n', hint=(3 * ci + si) % 5 - 1.5))
                rows[db].append(key + v)
                # a run that differs from it in one column
                for k in cols:
                    x = 111 + si if k == 'Seed' and 'Power' not in cols else None if k == 'Seed' else full[k][(ci + si) % len(full[k])]
                    if x is None or x == c.get(k) and k != 'Seed':
                        continue
                    o = tuple(x if kk == k else y for kk, y in zip(cols, key))
                    if not any(all(o[cols.index(q)] == v for q, v in cc.items()) for cc in conds) or k == 'Seed' and 'Power' not in cols:
                        if (db, o) not in names:
                            names.add((db, o))
                            other += 1
                            rows[db].append(o + (100.0 + other, 500.0 - other))
    return rows


def chosen(rows, db, cond):
    cols = FILES[db][1]
    return [r[-2:] for r in rows[db] if all(r[cols.index(k)] == v for k, v in cond.items()) and r[cols.index('Seed')] in SEEDS]


def value(ctx, text, want):
    """The number behind printed digits: in floats, the expected one if it prints like that."""
    if ctx.symbolic:
        from sym.core import printed
        v = printed(text)
        return float(text) if v is None else v
    d = Decimal(text)
    w = float(want)
    if d.is_finite() and abs(float(d) - w) <= 0.6 * 10.0 ** d.as_tuple().exponent + 1e-9 * abs(w):
        return w
    return float(text)


def spread(ctx, xs):
    m = sum(xs[1:], xs[0]) / len(xs)
    return m, ctx.sqrt(sum([(x - m) * (x - m) for x in xs[1:]], (xs[0] - m) * (xs[0] - m)) / len(xs))


def execute(ctx, rows):
    """(printed lines, names of the script)."""
    from sym.concrete import REPO
    text = io.StringIO()
    with contextlib.ExitStack() as stack:
        stores = {}
        for db, (table, cols) in FILES.items():
            st = stores[db] = stack.enter_context(Store(ctx, True))
            c = st.connect()
            c.execute('CREATE TABLE %s (%s, RMSE REAL, NLL REAL)' % (table, ', '.join('%s %s' % (k, TYPES[k]) for k in cols)))
            c.executemany('INSERT INTO %s VALUES (%s)' % (table, ', '.join('?' * (len(cols) + 2))), rows[db])
            c.commit()
        empty = stack.enter_context(Store(ctx))

        def connect(path, *a, **k):
            return stores.get(os.path.basename(path), empty).connect()
        from sym import core
        with replaced((sqlite3, 'connect', connect), (core, 'TOKENS', [True])), contextlib.redirect_stdout(text):
            names = runpy.run_path(os.path.join(REPO, 'Experiments', 'DisplayResults.py'), run_name='__main__')
    return text.getvalue().splitlines(), names


@scenario('C34', [dict(n=1, few=False), dict(n=2, few=False), dict(n=3, few=True), dict(n=10, few=False)])
def summary(ctx, n, few):
    rows = contents(ctx, n, few)
    lines, names = execute(ctx, rows)
    got = []
    for l in lines:
        m = re.match(r'\s*(Kalman Smoother|Power EP \(.*?\))\s+%s \+/- +%s +%s \+/- +%s\s*$' % (NUM, NUM, NUM, NUM), l) or re.match(r'\s*(RMSE|NLL): %s \+/- %s\s*$' % (NUM, NUM), l)
        if m:
            got.append(m.groups())
    want = report()
    ctx.true('lines', [g[0] for g in got] == [w[1] for w in want], note='%s' % ([g[0] for g in got],))
    if len(got) != len(want):
        return
    for i, (g, (db, name, cond)) in enumerate(zip(got, want)):
        sel = chosen(rows, db, cond)
        both = [spread(ctx, [s[j] for s in sel]) for j in (0, 1)]
        if name in ('RMSE', 'NLL'):
            both = [both[name == 'NLL']]
        for j, (t, w) in enumerate(zip(g[1:], [x for b in both for x in b])):
            ctx.eq('%s, %s, %s: number %d' % (db, name, sorted(cond.items()), j), value(ctx, t, w), w)


@scenario('C34', [dict(order=o, rev=False) for o in ((0, 1, 2, 3), (2, 0, 4, 1, 3), (4, 3, 2, 1, 0), (5, 1, 0, 2, 4, 3))], [dict(order=(0, 3, 6, 1, 4, 2, 5), rev=True), dict(order=(7, 0, 3, 6, 1, 4, 2, 5), rev=True)])
def outliers(ctx, order, rev):
    """Scores beyond one and a half interquartile ranges, found in one array, are left out of that array and of others."""
    names = execute(ctx, contents(ctx, 1, False))[1]
    remove = names.get('remove_outliers')
    if remove is None:
        return
    n = len(order)
    steps = [ctx.real('s0')] + [ctx.real('s%d' % i, '+', hint=1 if i < n - 1 else 9) for i in range(1, n)]
    up = [sum(steps[1:i + 1], steps[0]) for i in range(n)]
    x = np.array([up[o] for o in order])
    y = ctx.vec('y', n)

    def quantile(p):
        i, f = divmod(p * (n - 1), 4)
        return up[i] + (up[min(i + 1, n - 1)] - up[i]) * f / 4
    q1, q3 = quantile(1), quantile(3)
    lo, hi = q1 - 1.5 * (q3 - q1), q3 + 1.5 * (q3 - q1)
    x0 = np.array(x)
    idx, z = remove(x)
    keep = [i for i in range(n) if bool(x0[i] <= hi) and bool(x0[i] >= lo)]
    ctx.true('outliers', sorted(int(i) for i in idx) == [i for i in range(n) if i not in keep], note='%s, not %s' % (idx, keep))
    ctx.eq('rest', z, x0[keep])
    ctx.eq('rest of another array', remove(y, idx)[1], y[keep])
    same = remove(y, dont_remove=True)
    ctx.eq('none removed', same[1], y)
    ctx.eq('argument', x, x0)
