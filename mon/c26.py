"""C26: indicator table of a series of counts."""
import numpy as np
import pandas as pd
from maxlike.preprocessing import df_count
from . import frames

RULE = ("random series of counts (below, at and far above the size, repeated and unsorted labels, "
        "multiple index levels, integer or float values, empty) and sizes 1-9; every row of the "
        "table compared with its indicator, and totals with the counts. Distinct by values and "
        "size.")


def table(ctx):
    case = frames.Case(ctx, ctx.choice([0, 1, 2, 2, 3]))
    kind, idx = case.index(ctx)
    n = len(case.rows)
    size = ctx.randint(1, 9)
    if ctx.chance(.12):
        size = ctx.choice([50, 129, 200, 257, 300, 1000, 2100, 5000]) + ctx.randint(-1, 1)
    top = ctx.choice([size, size + 3, 2 * size + 5])
    v = ctx.rng.integers(0, top + 1, n)
    if ctx.chance(.1):
        v = v * 1000
    elif ctx.chance(.08):
        # beyond the precision of some types
        v = v + 2 ** ctx.choice([11, 24, 53])
    elif ctx.chance(.15) and n:
        # far above the size, congruent to small counts
        far = ctx.rng.random(n) < .5
        v = np.where(far, v + ctx.choice([2 ** 8, 2 ** 8, 2 ** 16, 2 ** 31, 2 ** 32, 10 ** 9]), v)
    v = v.astype(ctx.choice([int, int, float, np.int8 if v.max(initial=0) < 120 else int,
                             np.uint16 if v.max(initial=0) < 2 ** 16 else int, np.int32
                             if v.max(initial=0) < 2 ** 31 else int]))
    if ctx.chance(.05):
        v, idx, n = v[:0], idx[:0], 0
    name = ctx.choice([None, "goals", None, "x", idx.names[0], idx.names[-1]])
    s = pd.Series(v, index=idx)
    ctx.note(kind, case.rows, v.tolist(), str(v.dtype), "size", size, "name", name)
    ctx.sig(tuple(v.tolist()), size, kind)
    if size == 1 and n == 0:
        ctx.trivial = True
        return
    r = ctx.call("df_count", df_count, s, size) if name is None and ctx.chance(.5) else \
        ctx.call("df_count", df_count, s, size, name)
    ctx.check(isinstance(r, pd.DataFrame), "frame")
    ctx.check(r.shape == (n, size), "one row per observation, one column per count",
              lambda: repr(r.shape))
    ctx.check(list(r.index) == list(idx) and list(r.index.names) == list(idx.names),
              "index of the observations", lambda: repr(list(r.index)))
    ctx.check(list(r.columns) == list(range(size)), "columns", lambda: repr(list(r.columns)))
    ctx.check(r.columns.name == (name or "count"), "name of the columns",
              lambda: repr(r.columns.name))
    got = np.asarray(r.values)
    ctx.check(np.isin(got, (0, 1)).all(), "indicators")
    got = got.astype(int)
    ctx.check((got.sum(1) == 1).all(), "exactly one mark per row", lambda: repr(got.tolist()))
    want = np.zeros((n, size), int)
    want[np.arange(n), np.minimum(v.astype(int), size - 1)] = 1
    if np.array_equal(got, want):
        ctx.event("judged:rows", n)
        return
    swapped = want.copy()
    if size > 1:
        swapped[:, [size - 2, size - 1]] = want[:, [size - 1, size - 2]]
    if np.array_equal(got, swapped):
        ctx.event("judged:rows", n)
        # the other columns and the marks are right
        ctx.finding("last-two-columns", "the last two columns are swapped")
        return
    bad = int(np.flatnonzero((got != want).any(1) & (got != swapped).any(1))[0]) \
        if ((got != want).any(1) & (got != swapped).any(1)).any() else 0
    ctx.check(False, "column of the count", lambda: "row %d: count %r is marked in %s" % (
        bad, v[bad], np.flatnonzero(got[bad])))


WORKLOADS = [("table", table, 2000, 25000)]
