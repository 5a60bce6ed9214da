"""C28: simulated trajectories are stored and restored exactly."""
import contextlib
import os
import sqlite3

from props import scenario
from props.common import np
from props.store import Store, Conn, CONNECT


def trajectory(ctx, N, d, k, tag=''):
    """Pairs of state and observation as simulations return them: vectors, one-row batches or scalars by shape."""
    shape = {'v': lambda n: (n,), 'r': lambda n: (1, n)}
    return [(ctx.vec('%sx%d_' % (tag, t), d[0]).reshape(shape[d[1]](d[0])), ctx.vec('%sy%d_' % (tag, t), k[0]).reshape(shape[k[1]](k[0]))) for t in range(N)]


def table(conn, name):
    return conn.execute('SELECT Seed, t, X, Y FROM %s ORDER BY rowid' % name).fetchall()


def same_rows(ctx, label, got, want):
    ctx.true(label + ': number of rows', len(got) == len(want), note='%d instead of %d' % (len(got), len(want)))
    if len(got) != len(want):
        return
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.true('%s: seed and time of row %d' % (label, i), (g[0], g[1]) == (w[0], w[1]), note='%r instead of %r' % (g[:2], w[:2]))
        for j, n in ((2, 'state'), (3, 'observation')):
            ctx.true('%s: shape of %s %d' % (label, n, i), np.shape(g[j]) == np.shape(w[j]), note='%s instead of %s' % (np.shape(g[j]), np.shape(w[j])))
            if np.shape(g[j]) == np.shape(w[j]):
                ctx.eq('%s: %s %d' % (label, n, i), g[j], w[j], tol=0)


def rows_of(data, seed, skip=()):
    return [(seed, t, x, y) for t, (x, y) in enumerate(data) if t not in skip]


@scenario('C28', [dict(N=N, d=d, k=k, kind=c) for N, d, k, c in
           ((1, (1, 'v'), (1, 'v'), 'list'), (3, (1, 'v'), (1, 'v'), 'list'), (3, (2, 'v'), (1, 'v'), 'generator'), (2, (4, 'r'), (2, 'r'), 'list'), (0, (1, 'v'), (1, 'v'), 'list'),
            (4, (3, 'r'), (3, 'v'), 'tuple'), (12, (1, 'v'), (1, 'v'), 'list'), (11, (5, 'r'), (3, 'r'), 'generator'))] +
          [dict(N=3, d=(2, 'v'), k=(1, 'v'), kind='list', seed=s) for s in (0, 1, -1, 999, 2 ** 32 - 1, 2 ** 40)],
          [dict(N=100, d=(1, 'v'), k=(1, 'v'), kind='list'), dict(N=20, d=(5, 'r'), k=(3, 'r'), kind='generator')])
def round_trip(ctx, N, d, k, kind, seed=11):
    from Utils.Database import create_dynamics_table, insert_dynamics_data
    data = trajectory(ctx, N, d, k)
    keep = [(np.array(x), np.array(y)) for x, y in data]
    with Store(ctx) as st:
        conn, other = st.connect(), st.connect()
        db = conn.cursor()
        create_dynamics_table(db, 'A')
        create_dynamics_table(db, 'B')
        create_dynamics_table(db)
        insert_dynamics_data(db, 'A', iter(data) if kind == 'generator' else tuple(data) if kind == 'tuple' else data, seed)
        conn.commit()
        same_rows(ctx, 'stored', table(other, 'A'), rows_of(keep, seed))
        same_rows(ctx, 'other table', table(other, 'B'), [])
        same_rows(ctx, 'default table', table(other, 'UNGM'), [])


@scenario('C28', [dict(N=N, M=M, same=s) for N, M, s in ((2, 2, True), (2, 3, True), (3, 1, True), (2, 2, False), (1, 3, False))] +
          [dict(N=2, M=3, same=s, seeds=q) for s in (True, False) for q in ((0, 1), (1, 10), (-1, 1), (2 ** 31, 0))],
          [dict(N=20, M=30, same=True), dict(N=20, M=30, same=False)])
def again(ctx, N, M, same, seeds=(3, 4)):
    """A second trajectory: rows of a seed and time that are stored already stay, further times are added."""
    from Utils.Database import create_dynamics_table, insert_dynamics_data
    a, b = trajectory(ctx, N, (2, 'v'), (1, 'v')), trajectory(ctx, M, (2, 'v'), (1, 'v'), 'b')
    with Store(ctx) as st:
        conn = st.connect()
        db = conn.cursor()
        create_dynamics_table(db, 'A')
        insert_dynamics_data(db, 'A', a, seeds[0])
        create_dynamics_table(db, 'A')          # creating the table again keeps its rows
        insert_dynamics_data(db, 'A', b, seeds[0] if same else seeds[1])
        want = rows_of(a, seeds[0]) + (rows_of(b, seeds[0], range(N)) if same else rows_of(b, seeds[1]))
        same_rows(ctx, 'stored', table(conn, 'A'), want)


@scenario('C28', [dict(N=2), dict(N=3)])
def simulated(ctx, N):
    """What a simulation yields is what the table holds, and the pairs stay usable."""
    from Systems.DynamicSystem import DynamicSystemModel, GaussianNoise
    from Utils.Database import create_dynamics_table, insert_dynamics_data
    from StateModel import Gaussian
    src = ctx.source()
    Q, R, P = ctx.spd('Q', 1), ctx.spd('R', 1), ctx.spd('P', 1)
    f, h = ctx.fn('f', 1, 1), ctx.fn('h', 1, 1)
    model = DynamicSystemModel(system_dim=1, measurement_dim=1, transition=lambda x, t=None, u=None: f(x), measurement=lambda x, t=None, u=None: h(x),
                               system_noise=GaussianNoise(dimension=1, cov=Q), measurement_noise=GaussianNoise(dimension=1, cov=R),
                               init_distribution=Gaussian(ctx.vec('m', 1), P))
    data = model.simulate(N)
    data = list(data)
    with Store(ctx) as st:
        conn = st.connect()
        db = conn.cursor()
        create_dynamics_table(db, 'A')
        insert_dynamics_data(db, 'A', data, 5)
        same_rows(ctx, 'stored', table(conn, 'A'), rows_of(data, 5))


@scenario('C28', [dict(shape=s) for s in ((), (1,), (3,), (1, 2), (2, 2), (2, 1, 2), (0,), (0, 3), (12,), (6, 5))], [dict(shape=(10, 10)), dict(shape=(5, 4, 3))])
def arrays(ctx, shape):
    """The array adapters restore every array exactly, in any number of round trips."""
    from Utils.Database import adapt_array, convert_array
    shape = tuple(shape)
    n = 1
    for s in shape:
        n *= s
    A = ctx.vec('a', n).reshape(shape)
    with Store(ctx) as st:
        raw = st.enc(A)
        B = convert_array(bytes(adapt_array(raw)))
        B2 = convert_array(bytes(adapt_array(B)))
        for i, X in enumerate((B, B2)):
            ctx.true('shape, round %d' % (i + 1), np.shape(X) == shape, note='%s' % (np.shape(X),))
            if np.shape(X) == shape and n:
                ctx.eq('values, round %d' % (i + 1), np.asarray(st.dec(X)), A, tol=0)
        T = convert_array(bytes(adapt_array(st.enc(A.T))))
        if n:
            ctx.eq('transposed array', np.asarray(st.dec(T)), A.T, tol=0)


@contextlib.contextmanager
def inside(st):
    """Within the scratch folder; connections that the code opens carry symbolic numbers."""
    here, real = os.getcwd(), sqlite3.connect

    def connect(*a, **k):
        c = CONNECT(*a, **k)
        st.open.append(c)
        return Conn(st, c)
    sqlite3.connect = connect
    os.chdir(st.dir)
    try:
        yield
    finally:
        os.chdir(here)
        sqlite3.connect = real


@scenario('C28', [dict(where=w, N=n, d=d) for w, n, d in (('path', 2, (1, 'v')), ('name', 1, (3, 'r')), ('default', 2, (2, 'v')), ('default', 0, (1, 'v')), ('path', 12, (5, 'r')))],
          [dict(where='default', N=60, d=(4, 'v'))])
def reopened(ctx, where, N, d):
    """What was committed is there when the database file is opened again, in the file asked for and in no other."""
    from Utils.Database import open_database, create_dynamics_table, insert_dynamics_data
    a, b = trajectory(ctx, N, d, (1, 'v')), trajectory(ctx, N + 1, d, (1, 'v'), 'b')
    with Store(ctx) as st, inside(st):
        os.mkdir('sub')
        arg = dict(path=(os.path.join(st.dir, 'sub', 'mine.db'),), name=('mine.sqlite',), default=())[where]
        for round, (data, seed) in enumerate(((a, 3), (b, 4))):
            conn = open_database(*arg)
            db = conn.cursor()
            create_dynamics_table(db, 'A')
            insert_dynamics_data(db, 'A', data, seed)
            conn.commit()
            insert_dynamics_data(db, 'A', data, 99)         # not committed
            conn.close()
        files = sorted(os.path.relpath(os.path.join(p, f), st.dir) for p, _, fs in os.walk(st.dir) for f in fs)
        want = dict(path=os.path.join('sub', 'mine.db'), name='mine.sqlite', default='temp.db')[where]
        ctx.true('files', files == [want], note='%s' % (files,))
        conn = open_database(db=arg[0]) if arg else open_database(None)
        same_rows(ctx, 'stored', table(conn, 'A'), rows_of(a, 3) + rows_of(b, 4))


@scenario('C28', [dict(shape=s) for s in ((), (1,), (3,), (2, 2), (12,))])
def lists(ctx, shape):
    """Lists (of numbers, arrays, lists) come back from the columns for pickled values, arrays from theirs."""
    from Utils.Database import open_database, adapt_list, convert_list
    n = 1
    for k in shape:
        n *= k
    A, x = ctx.vec('a', n).reshape(shape), ctx.vec('x', 3)

    def check(label, got):
        ctx.true(label + ': list', isinstance(got, list) and len(got) == 4 and isinstance(got[1], list) and got[3] == ['UT', None], note='%r' % (got,))
        if isinstance(got, list) and len(got) == 4 and isinstance(got[1], list):
            ctx.true(label + ': shape', np.shape(got[0]) == tuple(shape))
            ctx.eq(label + ': array', np.asarray(got[0]), A, tol=0)
            ctx.eq(label + ': numbers', np.array(got[1] + [got[2]]), x, tol=0)
    with Store(ctx) as st, inside(st):
        conn = open_database('x.db')
        conn.execute('CREATE TABLE L (i INT, p pickle, q Nodes, r NParray)')
        value = [A, [x[0], x[1]], x[2], ['UT', None]]
        for i in range(2):
            conn.execute('INSERT INTO L VALUES (?, ?, ?, ?)', (i, value, value[::-1], x))
        conn.commit()
        other = open_database('x.db')
        rows = other.execute('SELECT p, q, r FROM L ORDER BY i').fetchall()
        ctx.true('rows', len(rows) == 2)
        for p, q, r in rows:
            check('pickled', p)
            check('nodes', q[::-1] if isinstance(q, list) else q)
            ctx.eq('array column', np.asarray(r), x, tol=0)
        check('direct', st.dec(convert_list(bytes(adapt_list(st.enc(value))))))
