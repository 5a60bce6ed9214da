"""C27: uncertainty bands in plots."""
from props import scenario
from props.common import np, gaussian, natural


class Axes:
    """Records what is drawn."""

    def __init__(self):
        self.lines, self.bands = [], []

    def plot(self, *a, **k):
        a = [x for x in a if not isinstance(x, str)]
        if len(a) == 1:
            a = [np.arange(len(a[0]))] + a
        self.lines.append((np.array(a[0]), np.array(a[1])))
        return [self]

    def fill_between(self, x, y1=None, y2=0, *a, **k):
        x, y1 = np.array(x), np.array(y1)
        self.bands.append((x, y1 + 0 * x, np.array(y2) + 0 * x))
        return self

    def gca(self, *a, **k):
        return self

    def figure(self, *a, **k):
        return self

    def add_subplot(self, *a, **k):
        return self

    def subplots(self, *a, **k):
        return self, self

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: self


class Patched:
    def __init__(self, ax):
        import Utils.Plot_Helper as ph
        self.ph, self.ax = ph, ax

    def __enter__(self):
        self.saved = self.ph.plt
        self.ph.plt = self.ax

    def __exit__(self, *a):
        self.ph.plt = self.saved


class Node:
    def __init__(self, g):
        self.marginal = g


def draw(ctx, given, call):
    """The recorder is handed in as the axis, or stands in for pyplot."""
    ax = Axes()
    with Patched(Axes() if given else ax):
        out = call(dict(ax=ax) if given else {})
    return ax, out


def data(ctx, N, d, form, pool=None):
    raw, gs = [], []
    if pool:
        # a long series of few different Gaussians in an irregular order
        raw, gs = data(ctx, pool, d, form)
        order = [(i * i // 3) % pool for i in range(N)]
        return [raw[j] for j in order], [gs[j] for j in order]
    for i in range(N):
        if form == 'm':
            m, P = ctx.vec('m%d_' % i, d), ctx.spd('P%d_' % i, d)
            gs.append(gaussian(m, P))
        else:
            W, s = ctx.spd('W%d_' % i, d), ctx.vec('s%d_' % i, d)
            ctx.assume(sum(W[j, j] for j in range(d)) >= 1e-10, 'precisions are not in the vague range')
            P = ctx.inv(W)
            m = P @ s
            gs.append(natural(W, s))
        raw.append((m, P))
    return raw, gs


def check(ctx, ax, raw, times, width, lines=1):
    N = len(raw)
    ctx.true('one band', len(ax.bands) == 1, note='%d bands' % len(ax.bands))
    if len(ax.bands) != 1:
        return
    x, a, b = ax.bands[0]
    ok = np.shape(x) == (N,) and np.shape(a) == (N,) and np.shape(b) == (N,)
    ctx.true('shape of the band', ok, note='%s %s %s' % (np.shape(x), np.shape(a), np.shape(b)))
    if not ok:
        return
    ctx.eq('times of the band', x, times, tol=0)
    for i, (m, P) in enumerate(raw):
        sd = ctx.sqrt(P[0, 0])
        lo, hi = m[0] - width * sd, m[0] + width * sd
        ctx.eq('lower edge at %d' % i, a[i], lo)
        ctx.eq('upper edge at %d' % i, b[i], hi)


@scenario('C27', [dict(N=N, d=d, form=f, ax=a, truth=t) for N, d, f, a, t in
           ((1, 1, 'm', True, True), (3, 1, 'm', False, False), (2, 1, 'n', True, True), (4, 1, 'm', True, True), (2, 2, 'm', True, False), (2, 2, 'm', False, True),
            (1, 2, 'n', True, False), (1, 3, 'm', True, False))] + [dict(N=12, d=1, form='m', ax=True, truth=True, start=0.8), dict(N=11, d=1, form='n', ax=False, truth=True, start=0.8)] +
          [dict(N=271, d=1, form='m', ax=True, truth=True, pool=3, start=0.9), dict(N=1037, d=1, form='n', ax=False, truth=False, pool=2, start=0.9)],
          [dict(N=20, d=1, form='m', ax=True, truth=True), dict(N=4, d=3, form='m', ax=True, truth=True), dict(N=3, d=2, form='n', ax=True, truth=True)])
def node_plot(ctx, N, d, form, ax, truth, pool=None):
    from Utils.Plot_Helper import plot_gaussian_node
    raw, gs = data(ctx, N, d, form, pool)
    if d > 1:
        for m, P in raw:
            for j in range(1, d):
                ctx.assume(P[0, j] >= 0, 'correlations with the first component are not negative (numpy reports nan for the roots of the others, which are not drawn)')
    xs = ctx.vec('x', N) if not pool else np.array([ctx.vec('x', 4)[(i * i // 5) % 4] for i in range(N)])
    given = ax
    rec, out = draw(ctx, given, lambda kw: plot_gaussian_node([Node(g) for g in gs], **(dict(ground_truth=xs) if truth else {}), **kw))
    ctx.true('the axis is returned', out is rec)
    times = np.arange(1, N + 1)
    check(ctx, rec, raw, times, 1.96)
    ctx.true('lines drawn', len(rec.lines) == (2 if truth else 1), note='%d lines' % len(rec.lines))
    if not rec.lines:
        return
    x, y = rec.lines[0]
    ctx.eq('times of the means', x, times, tol=0)
    ctx.true('a mean for each time', np.shape(y)[0] == N and np.size(y) in (N, N * d), note='shape %s' % (np.shape(y),))
    ctx.eq('means', np.reshape(y, (N, -1))[:, 0], np.array([m[0] for m, P in raw]))
    if np.size(y) == N * d:
        ctx.eq('all means', np.reshape(y, (N, d)), np.array([m for m, P in raw]))
    if truth and len(rec.lines) == 2:
        ctx.eq('times of the truth', rec.lines[1][0], times, tol=0)
        ctx.eq('truth', np.ravel(rec.lines[1][1]), xs, tol=0)
    for g, (m, P) in zip(gs, raw):
        ctx.eq('marginal mean afterwards', g.mean, m)
        ctx.eq('marginal covariance afterwards', g.cov, P)


@scenario('C27', [dict(N=1, d=1), dict(N=3, d=1), dict(N=2, d=2), dict(N=11, d=1, start=0.8), dict(N=271, d=1, pool=3, start=0.9), dict(N=1037, d=1, pool=2, start=0.9)], [dict(N=10, d=1), dict(N=5003, d=1, pool=2)])
def state_plot(ctx, N, d, pool=None):
    """plot_gaussian: a list of Gaussians, at times 0..N-1."""
    from Utils.Plot_Helper import plot_gaussian
    raw, gs = data(ctx, N, d, 'm', pool)
    if d > 1:
        for m, P in raw:
            ctx.assume(P[0, 1] >= 0, 'correlations with the first component are not negative')
    rec, out = draw(ctx, False, lambda kw: plot_gaussian(gs, label='a'))
    check(ctx, rec, raw, np.arange(N), 1.96)


@scenario('C27', [dict(S=S, T=T, ax=a) for S, T, a in ((1, 1, True), (1, 3, False), (2, 1, True), (2, 2, False), (3, 2, True), (4, 1, True))] + [dict(S=3, T=12, ax=True, start=0.9), dict(S=12, T=2, ax=True, start=0.9), dict(S=2, T=307, ax=True, pool=3, start=0.9), dict(S=521, T=2, ax=True, pool=3, start=0.9)],
          [dict(S=5, T=4, ax=True), dict(S=8, T=1, ax=True)])
def ensemble_plot(ctx, S, T, ax, pool=None):
    from Utils.Plot_Helper import plot_1d_data
    D = ctx.mat('D', S, T) if not pool else ctx.mat('D', min(S, pool), min(T, pool))[np.ix_([(i * i // 3) % min(S, pool) for i in range(S)], [(i * i // 3) % min(T, pool) for i in range(T)])]
    keep = np.array(D)
    rec, out = draw(ctx, ax, lambda kw: plot_1d_data(D, label='a', **kw))
    ctx.true('the axis is returned', out is rec)
    mean = [sum(D[s, t] for s in range(S)) / S for t in range(T)]
    sd = [ctx.sqrt(sum((D[s, t] - mean[t]) ** 2 for s in range(S)) / S) for t in range(T)]
    ctx.true('one line', len(rec.lines) == 1)
    times = np.arange(1, T + 1)
    if rec.lines:
        ctx.eq('times', rec.lines[0][0], times, tol=0)
        ctx.eq('mean', np.ravel(rec.lines[0][1]), np.array(mean))
    ctx.true('a band exactly for more than one sample', len(rec.bands) == (1 if S > 1 else 0), note='%d bands' % len(rec.bands))
    if len(rec.bands) == 1 and S > 1:
        x, a, b = rec.bands[0]
        ctx.eq('times of the band', x, times, tol=0)
        ctx.eq('lower edge', a, np.array([m - s for m, s in zip(mean, sd)]))
        ctx.eq('upper edge', b, np.array([m + s for m, s in zip(mean, sd)]))
    ctx.eq('the data are not changed', D, keep, tol=0)
