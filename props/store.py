"""A sqlite database that can hold symbolic numbers: they travel through SQL as unique tokens."""
import os
import shutil
import sqlite3
import tempfile

import numpy as np

BASE = 3.0e9
CONNECT = sqlite3.connect


class Store:
    def __init__(self, ctx, symbols=False):
        import Utils.Database                       # registers the adapters of the repository
        self.ctx, self.symbols = ctx, symbols       # symbols: stored reals come back as symbolic constants
        self.dir = tempfile.mkdtemp(prefix='verif_db_')
        self.path = os.path.join(self.dir, 'x.db')
        self.tok, self.val = {}, {}
        self.open = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for c in self.open:
            c.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def connect(self):
        c = CONNECT(self.path, detect_types=sqlite3.PARSE_DECLTYPES)
        self.open.append(c)
        return Conn(self, c)

    # ---- symbolic numbers <-> tokens
    def token(self, v):
        k = v.key
        if k not in self.tok:
            self.tok[k] = BASE + len(self.tok)
            self.val[self.tok[k]] = v
        return self.tok[k]

    def enc(self, v):
        if not self.ctx.symbolic:
            return v
        from sym.core import Sym
        if isinstance(v, Sym):
            if v.is_const:
                f = float(v)
                return f if f < BASE else self.token(v)
            return self.token(v)
        if isinstance(v, np.ndarray) and v.dtype == object:
            from sym.shim import ORIG
            out = ORIG['np.empty'](v.shape, dtype=float)
            for i in np.ndindex(*v.shape):
                out[i] = self.enc(v[i])
            return out
        if isinstance(v, dict):
            return {k: self.enc(x) for k, x in v.items()}
        if isinstance(v, tuple):
            return tuple(self.enc(x) for x in v)
        if isinstance(v, list):
            return [self.enc(x) for x in v]
        return v

    def dec(self, v):
        if not self.ctx.symbolic:
            return v
        if isinstance(v, float):
            return self.val.get(v, self.ctx.const(v) if self.symbols else v)
        if isinstance(v, list):
            return [self.dec(x) for x in v]
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f':
            out = np.array(v, dtype=object)
            for i in np.ndindex(*v.shape):
                out[i] = self.val.get(float(v[i]), float(v[i]))
            return out
        return v


class Cursor:
    def __init__(self, conn, cur):
        self._conn, self._cur = conn, cur
        self.connection = conn

    def _params(self, p):
        st = self._conn._store
        return st.enc(p) if isinstance(p, (dict, tuple)) else tuple(st.enc(x) for x in p)

    def execute(self, sql, params=()):
        self._cur.execute(sql, self._params(params))
        return self

    def executemany(self, sql, seq):
        self._cur.executemany(sql, [self._params(p) for p in seq])
        return self

    def executescript(self, sql):
        self._cur.executescript(sql)
        return self

    def _row(self, r):
        return None if r is None else tuple(self._conn._store.dec(x) for x in r)

    def fetchone(self):
        return self._row(self._cur.fetchone())

    def fetchall(self):
        return [self._row(r) for r in self._cur.fetchall()]

    def fetchmany(self, n=1):
        return [self._row(r) for r in self._cur.fetchmany(n)]

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        self._cur.close()

    def __getattr__(self, n):
        return getattr(self._cur, n)


class Conn:
    def __init__(self, store, conn):
        self._store, self._c = store, conn

    def cursor(self):
        return Cursor(self, self._c.cursor())

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def commit(self):
        self._c.commit()

    def rollback(self):
        self._c.rollback()

    def close(self):
        self._c.close()

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        self._c.rollback() if t else self._c.commit()

    def __getattr__(self, n):
        return getattr(self._c, n)
