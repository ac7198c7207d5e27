"""Random labelled data and the direct grouping of their rows."""
import datetime
import numpy as np
import pandas as pd


def labels(ctx, kind=None, n=None):
    """distinct labels of a sortable type"""
    if n is None:
        n = ctx.randint(1, 5) if ctx.chance(.9) else ctx.randint(6, 12)
        if ctx.chance(.06):
            n, kind = ctx.randint(13, 90), kind or "many"
    kind = kind or ctx.choice(["int", "int", "str", "str", "float", "date", "neg", "bigstr",
                               "bool", "mixed", "pydate", "period"])
    if kind == "int":
        out = ctx.sample(max(12, n), n)
    elif kind == "many":
        out = ["L%d" % i for i in ctx.sample(150, n)]
    elif kind == "neg":
        out = [i - 6 for i in ctx.sample(12, n)]
    elif kind == "str":
        out = [chr(97 + i) for i in ctx.sample(12, n)]
    elif kind == "bigstr":
        pool = ["Team A", "Team a", "team", "", "ß", "10", "9", "z z", "Z", "é", "A", " "]
        out = [pool[i] for i in ctx.sample(12, n)]
    elif kind == "float":
        out = [round(i * .37 - 1.2, 2) for i in ctx.sample(12, n)]
    elif kind == "mixed":
        pool = [0, 1.5, -2, 3, 2.25, 7]
        out = [pool[i] for i in ctx.sample(6, min(n, 6))]
    elif kind == "pydate":
        out = [datetime.date(2014 + i // 3, 1 + 5 * i % 12, 28 - i) for i in ctx.sample(12, n)]
    elif kind == "period":
        out = [pd.Period("2015-0%d" % (1 + i % 9), "M") + 9 * (i // 9) for i in ctx.sample(12, n)]
    elif kind == "bool":
        out = [bool(i) for i in ctx.sample(2, min(n, 2))]
    else:
        out = [pd.Timestamp("2015-03-27") + pd.Timedelta(days=31 * i)
               for i in ctx.sample(12, n)]
    return kind, out


def multi_index(ctx, rows, pools, names):
    """the same rows through the different ways of building an index"""
    kind = ctx.choice(["tuples", "tuples", "arrays", "explicit", "slice", "frame"])
    L = len(pools)
    if kind == "frame" and L == 1:
        kind = "arrays"     # pandas makes a plain index
    if kind == "tuples":
        return kind, pd.MultiIndex.from_tuples(rows, names=names)
    if kind == "arrays":
        return kind, pd.MultiIndex.from_arrays([[r[k] for r in rows] for k in range(L)],
                                               names=names)
    if kind == "explicit":
        # levels in arbitrary order, with labels that don't occur
        levels, codes = [], []
        for k in range(L):
            lev = [pools[k][i] for i in ctx.perm(len(pools[k]))]
            levels.append(lev)
            codes.append([lev.index(r[k]) for r in rows])
        return kind, pd.MultiIndex(levels=levels, codes=codes, names=names)
    if kind == "slice":
        extra = [tuple(ctx.choice(p) for p in pools) for _ in range(3)]
        idx = pd.MultiIndex.from_tuples(rows + extra, names=names)
        return kind, idx[:len(rows)]
    fr = pd.DataFrame({"_%d" % k: [r[k] for r in rows] for k in range(L)})
    idx = fr.set_index(["_%d" % k for k in range(L)]).index
    return kind, idx.set_names(names)


SERIES_TRANS = {
    "sum": (lambda c: c.choice([np.sum, "sum", lambda x: x.sum()]), lambda v: sum(v)),
    "size": (lambda c: c.choice([np.size, "size", "count", len]), lambda v: len(v)),
    "mean": (lambda c: c.choice([np.mean, "mean"]), lambda v: sum(v) / len(v)),
    "max": (lambda c: c.choice([np.max, "max", max]), lambda v: max(v)),
    "min": (lambda c: c.choice([np.min, "min"]), lambda v: min(v)),
    "zeros": (lambda c: lambda x: (x == 0).sum(), lambda v: sum(1 for x in v if x == 0)),
    "sq": (lambda c: lambda x: (x ** 2).sum(), lambda v: sum(float(x) ** 2 for x in v)),
    "prod": (lambda c: c.choice([np.prod, "prod"]), lambda v: float(np.prod(np.array(v, float)))),
}


def transformations(ctx, names=("N", "X", "Z", "foo")):
    keys = ctx.sample(len(SERIES_TRANS), ctx.randint(1, 4))
    kinds = [sorted(SERIES_TRANS)[k] for k in keys]
    out = {n: k for n, k in zip([names[i] for i in ctx.perm(len(names))], kinds)}
    return {n: SERIES_TRANS[k][0](ctx) for n, k in out.items()}, out


def observations(ctx, n):
    kind = ctx.choice(["count", "count", "float", "bool", "neg"])
    rng = ctx.rng
    if kind == "count":
        return rng.poisson(1.2, n)
    if kind == "float":
        return np.round(rng.normal(size=n), 3)
    if kind == "bool":
        return rng.random(n) < .5
    return rng.integers(-5, 6, n)


class Case:
    """labelled rows"""

    def __init__(self, ctx, levels, min_rows=1):
        self.L = levels
        self.kinds, self.pools = [], []
        for _ in range(max(1, levels)):
            k, p = labels(ctx)
            self.kinds.append(k)
            self.pools.append(p)
        n = ctx.randint(min_rows, 30) if ctx.chance(.9) else ctx.randint(100, 1000)
        self.rows = [tuple(ctx.choice(p) for p in self.pools) for _ in range(n)]
        named = ctx.choice(["names", "names", "none", "some", "odd"])
        odd = [0, "", 1, "N", "X", -1, "count", "0", True, 2.5]
        odd = [odd[i] for i in ctx.sample(len(odd), max(1, levels))]
        self.names = [odd[k] if named == "odd" else
                      "f%d" % k if named == "names" or (named == "some" and k % 2 == 0)
                      else None for k in range(max(1, levels))]
        if len({n for n in self.names if n is not None}) < sum(n is not None for n in self.names):
            self.names = [None] * len(self.names)   # (1 is True)
        self.add = None
        if ctx.chance(.5):
            add = {}
            for k in range(max(1, levels)):
                if self.names[k] is not None and ctx.chance(.6) or levels == 0:
                    _, more = labels(ctx, self.kinds[k])
                    # requested labels may be observed ones, too
                    more = more + [ctx.choice(self.pools[k])]
                    add[self.names[k]] = ctx.choice([list, tuple])(
                        [more[i] for i in ctx.perm(len(more))])
            if levels == 0:
                self.add = list(add.values())[0]
            else:
                if ctx.chance(.2):
                    add["other"] = ["x", "y"]
                self.add = add

    def index(self, ctx, rows=None):
        rows = self.rows if rows is None else rows
        if self.L == 0:
            kind = ctx.choice(["index", "index", "categorical"])
            v = [r[0] for r in rows]
            if kind == "categorical":
                p = list(dict.fromkeys(self.pools[0]))
                return kind, pd.CategoricalIndex(v, categories=p, name=self.names[0])
            return kind, pd.Index(v, name=self.names[0])
        return multi_index(ctx, rows, self.pools, self.names)

    def requested(self, k):
        if self.add is None:
            return []
        if self.L == 0:
            return list(self.add)
        return list(self.add.get(self.names[k], []))

    def group(self, values):
        out = {}
        for r, v in zip(self.rows, values):
            out.setdefault(r, []).append(v)
        return out


def series(ctx):
    c = Case(ctx, ctx.choice([0, 1, 2, 2, 3]))
    kind, idx = c.index(ctx)
    s = pd.Series(observations(ctx, len(c.rows)), index=idx)
    trans, _ = transformations(ctx)
    return s, trans, c.add


def frame(ctx):
    c = Case(ctx, ctx.choice([1, 2, 2, 3]))
    kind, idx = c.index(ctx)
    n = len(c.rows)
    df = pd.DataFrame({"w": ctx.choice([ctx.rng.integers(1, 5, n),
                                        ctx.rng.uniform(.5, 3, n), np.ones(n)]),
                       "r": observations(ctx, n),
                       "other": ctx.rng.normal(size=n)}, index=idx)
    trans, _ = transformations(ctx, ("X", "Z", "foo", "bar"))
    return df, "w", "r", trans, c.add


def counts(ctx):
    n = ctx.randint(0, 12)
    return pd.Series(ctx.rng.poisson(1.5, n), index=ctx.perm(n))
