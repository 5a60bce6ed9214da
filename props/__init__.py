"""Registry of scenarios.  A scenario is a function fn(ctx, **params) that builds inputs with ctx, runs code of the
repository on them and states what must hold.  The same function runs symbolically and, for replay, on floats."""
import importlib

REG = {}


class Scenario:
    def __init__(self, prop, name, fn, params, tier, budget, max_paths, t_vc, start=0):
        self.start = start     # share of the inputs fixed in the first round of the quick tier
        self.prop, self.name, self.fn, self.params = prop, name, fn, params
        self.tier, self.budget, self.max_paths, self.t_vc = tier, budget, max_paths, t_vc


def scenario(prop, grid=({},), thorough=(), budget=40, max_paths=60, t_vc=8.0, tbudget=None):
    """Registers fn for every parameter set; those of `thorough` run in the thorough tier only."""
    def deco(fn):
        for tier, ps in (('quick', grid), ('thorough', thorough)):
            for p in ps:
                p = dict(p)
                start = p.pop('start', 0)
                name = fn.__name__ + ''.join(',%s=%s' % (k, v) for k, v in p.items())
                b = budget if tier == 'quick' else (tbudget or budget * 4)
                REG.setdefault(prop, {})[name] = Scenario(prop, name, fn, dict(p), tier, b, max_paths, t_vc, start)
        return fn
    return deco


def extend(prop, name, grid, **kw):
    """More parameter sets for a scenario function."""
    fn = next(s.fn for s in REG[prop].values() if s.fn.__name__ == name)
    scenario(prop, grid, **kw)(fn)


def load(prop):
    if prop not in REG:
        importlib.import_module('props.' + prop.lower())
        from props import large
        for name, grid, kw in large.SIZES.get(prop, ()):
            extend(prop, name, grid, **kw)
        arrays(prop)
    return REG[prop]


def arrays(prop):
    """Every scenario function once more with array inputs of integers (each array in one of two variants, the others being
    symbolic), with the arrays in Fortran order or strided, and with inputs of one shape being the same array object."""
    from props import large
    from sym.values import LAYOUTS
    skip = large.REAL_ONLY.get(prop, ())
    fns = {}
    for s in REG[prop].values():
        if s.tier == 'quick' and s.fn.__name__ not in skip and '*' not in skip:
            fns.setdefault(s.fn, []).append(s)
    for fn, all_ in fns.items():
        def size(s):
            nums = [v for v in s.params.values() if type(v) is int]
            ones = sum(s.params.get(k, 2) in (0, 1) for k in ('d', 'n', 'T', 'N', 'k'))
            return (s.start > 0.5, s.params.get('pat') is not None, max(nums or [0]) > 3, ones, sum(nums))
        all_ = sorted(all_, key=size)
        best = [s for s in all_ if size(s)[:4] == size(all_[0])[:4] and size(s)[4] <= size(all_[0])[4] + 1]
        for i, how in enumerate(LAYOUTS):
            if '%s:%s' % (fn.__name__, how) in skip:
                continue
            s = best[i % len(best)]
            if how == 'same':
                # sizes of state and measurement equal, so that more inputs coincide
                s = next((x for x in all_ if x.start <= 0.5 and x.params.get('pat') is None and max(n for n in [0] + [v for v in x.params.values() if type(v) is int]) <= 3
                          and x.params.get('d', x.params.get('n', 0)) == x.params.get('k', 0) != 0 and x.params.get('k') != 1), s)
            scenario(prop, [dict(s.params, layout=how, start=max(s.start, .7))], budget=s.budget, max_paths=s.max_paths, t_vc=s.t_vc)(fn)


def find(prop, name):
    return load(prop)[name]
