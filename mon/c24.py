"""C24: prepare_series vs direct grouping of the rows."""
import numpy as np
import pandas as pd
from maxlike.preprocessing import prepare_series
from .core import Skip
from . import frames

RULE = ("random labelled series: plain, categorical and 1-3 level indexes (built from tuples, "
        "arrays, explicit unsorted levels with labels that don't occur, slices, columns), labels "
        "of several types, repeated, missing and requested combinations, unnamed levels, several "
        "transformations; every cell compared with a direct grouping of the rows, and again after "
        "shuffling the rows. Distinct by index structure, labels and transformations.")


def judge_axes(ctx, case, axis, kind):
    """sorted, unique, every observed and requested label, nothing unknown"""
    L = max(1, case.L)
    axes = [axis] if case.L == 0 else axis
    ctx.check(len(axes) == L, "number of axes", lambda: repr(axes))
    out = []
    for k, a in enumerate(axes):
        a = list(a)
        out.append(a)
        seen = set(r[k] for r in case.rows)
        want = seen | set(case.requested(k))
        ctx.check(all(x < y for x, y in zip(a, a[1:])), "sorted axis without repetitions",
                  lambda: repr(a))
        ctx.check(want <= set(a), "axis has every label", lambda: "%r lacks %r" % (
            a, sorted(want - set(a), key=repr)))
        ctx.check(set(a) <= want | set(case.pools[k]), "axis has no unknown label",
                  lambda: "%r" % (a,))
        if kind != "explicit" and kind != "slice":
            ctx.check(set(a) == want, "axis has no other label", lambda: "%r" % (a,))
    return out


def judge_cells(ctx, axes, arr, groups, fn, kind):
    arr = np.asarray(arr, dtype=float)
    ctx.check(arr.shape == tuple(len(a) for a in axes), kind + ":shape",
              lambda: "%s for axes %s" % (arr.shape, [len(a) for a in axes]))
    want = np.zeros(arr.shape)
    for r, v in groups.items():
        want[tuple(a.index(x) for a, x in zip(axes, r))] = fn(v)
    ctx.close(arr, want, kind, rtol=1e-12, atol=1e-12)
    ctx.event("occupied cells", len(groups))
    ctx.event("empty cells", arr.size - len(groups))


def run(ctx, case, idx, kind, values, trans, kinds, default):
    s = pd.Series(values, index=idx, name=ctx.choice([None, "goals"]))
    args = [s]
    kw = {}
    if not default:
        kw["transformations"] = trans
    if case.add is not None:
        kw["add_axis"] = case.add
    res, axis = ctx.call("prepare_series", prepare_series, *args, **kw)
    axes = judge_axes(ctx, case, axis, kind)
    ctx.check(sorted(res) == sorted(kinds), "keys of the result", lambda: repr(sorted(res)))
    g = case.group([float(v) for v in values])
    for name, k in kinds.items():
        judge_cells(ctx, axes, res[name], g, frames.SERIES_TRANS[k][1], "cells:" + k)
    return axes, res


def series(ctx):
    case = frames.Case(ctx, ctx.choice([0, 0, 1, 2, 2, 2, 3, 3, 4]))
    kind, idx = case.index(ctx)
    values = frames.observations(ctx, len(case.rows))
    default = ctx.chance(.15)
    trans, kinds = frames.transformations(ctx)
    if default:
        trans, kinds = None, {"N": "sum"}
    if values.dtype == bool and any(k in ("sq", "mean") for k in kinds.values()):
        values = values.astype(int)
    ctx.note(case.L, kind, case.kinds, case.names, "add", case.add, "rows", case.rows,
             "values", values.tolist(), kinds)
    ctx.sig(case.L, kind, tuple(case.rows), tuple(sorted(kinds.items())))
    axes, res = run(ctx, case, idx, kind, values, trans, kinds, default)
    # another order of the rows
    p = ctx.perm(len(case.rows))
    again = frames.Case.__new__(frames.Case)
    again.__dict__.update(case.__dict__)
    again.rows = [case.rows[k] for k in p]
    kind2, idx2 = again.index(ctx)
    axes2, res2 = run(ctx, again, idx2, kind2, values[p], trans, kinds, default)
    if kind == kind2 and kind not in ("explicit", "slice"):
        ctx.check(axes == axes2, "same axes for another order of the rows")
        for k in res:
            ctx.close(res2[k], res[k], "same arrays for another order", rtol=1e-12, atol=1e-12)


def stacked(ctx):
    """the table of counts of a frame, as the tests of score models do"""
    case = frames.Case(ctx, 2)
    case.add = None
    kind, idx = case.index(ctx)
    size = ctx.randint(2, 5)
    c = ctx.rng.integers(0, size, len(case.rows))
    tab = pd.DataFrame(np.eye(size, dtype=int)[c], index=idx, columns=pd.RangeIndex(size))
    s = tab.stack()
    ctx.note(case.rows, c.tolist(), size)
    ctx.sig(tuple(case.rows), tuple(c.tolist()))
    res, axis = ctx.call("prepare_series", prepare_series, s,
                         {"N": ctx.choice([np.sum, "sum"])})
    axes = [list(a) for a in axis]
    ctx.check(len(axes) == 3 and axes[2] == list(range(size)), "axis of the counts",
              lambda: repr(axes))
    want = np.zeros([len(a) for a in axes])
    for r, k in zip(case.rows, c):
        want[axes[0].index(r[0]), axes[1].index(r[1]), k] += 1
    ctx.close(res["N"], want, "stacked counts", rtol=0, atol=0)


WORKLOADS = [("series", series, 800, 12000), ("stacked", stacked, 150, 2000)]
