"""C25: prepare_dataframe vs direct grouping of the rows."""
import numpy as np
import pandas as pd
from maxlike.preprocessing import prepare_dataframe
from . import frames
from .c24 import judge_axes, judge_cells

RULE = ("random frames with 1-3 level indexes as for C24, integer and real weights (also zero) "
        "and results; exposure and transformed cells compared with a direct grouping of the rows, "
        "totals with the totals of the rows, and again after shuffling the rows. Distinct by "
        "index structure, labels and transformations.")


def run(ctx, case, idx, kind, w, r, trans, kinds, names):
    cols = {names[0]: w, names[1]: r}
    # whole rows repeat when the other columns don't tell them apart
    other = ctx.choice([None, None, ctx.rng.normal(size=len(w)), np.ones(len(w)),
                        np.array(["x"] * len(w), dtype=object)])
    if other is not None:
        cols["unused"] = other
    order = list(cols)
    df = pd.DataFrame({order[k]: cols[order[k]] for k in ctx.perm(len(cols))}, index=idx)
    kw = {} if case.add is None else {"add_axis": case.add}
    res, axis = ctx.call("prepare_dataframe", prepare_dataframe, df, names[0], names[1],
                         trans, **kw)
    axes = judge_axes(ctx, case, axis, kind)
    ctx.check(sorted(res) == sorted(list(kinds) + ["N"]), "keys of the result",
              lambda: repr(sorted(res)))
    judge_cells(ctx, axes, res["N"], case.group([float(x) for x in w]), sum, "weights")
    g = case.group([float(a) * float(b) for a, b in zip(w, r)])
    for name, k in kinds.items():
        judge_cells(ctx, axes, res[name], g, frames.SERIES_TRANS[k][1], "cells:" + k)
        if k == "sum":
            ctx.close(np.sum(res[name]), float(np.sum(w * r)), "total of the results",
                      rtol=1e-10, atol=1e-10)
    ctx.close(np.sum(res["N"]), float(np.sum(w)), "total of the weights", rtol=1e-10,
              atol=1e-10)
    return axes, res


def weighted(ctx):
    case = frames.Case(ctx, ctx.choice([1, 2, 2, 2, 3, 3, 4]))
    kind, idx = case.index(ctx)
    n = len(case.rows)
    w = ctx.choice([lambda: ctx.rng.integers(1, 6, n), lambda: ctx.rng.integers(0, 3, n),
                    lambda: np.round(ctx.rng.uniform(.1, 2, n), 3), lambda: np.ones(n, int)])()
    r = ctx.choice([lambda: ctx.rng.poisson(1.2, n), lambda: np.round(ctx.rng.normal(size=n), 3),
                    lambda: ctx.rng.integers(0, 2, n)])()
    trans, kinds = frames.transformations(ctx, ("X", "Z", "foo", "bar"))
    names = ctx.choice([("w", "r"), ("weight", "1"), ("N", "X"), ("n", "N")])
    ctx.note(case.L, kind, case.kinds, case.names, "add", case.add, "rows", case.rows,
             "w", w.tolist(), "r", r.tolist(), kinds, names)
    ctx.sig(case.L, kind, tuple(case.rows), tuple(sorted(kinds.items())))
    axes, res = run(ctx, case, idx, kind, w, r, trans, kinds, names)
    p = ctx.perm(n)
    again = frames.Case.__new__(frames.Case)
    again.__dict__.update(case.__dict__)
    again.rows = [case.rows[k] for k in p]
    kind2, idx2 = again.index(ctx)
    axes2, res2 = run(ctx, again, idx2, kind2, w[p], r[p], trans, kinds, names)
    if kind == kind2 and kind not in ("explicit", "slice"):
        ctx.check(axes == axes2, "same axes for another order of the rows")
        for k in res:
            ctx.close(res2[k], res[k], "same arrays for another order", rtol=1e-12, atol=1e-12)


def split(ctx):
    """a row is the same as two rows that share its weight"""
    case = frames.Case(ctx, 2)
    n = len(case.rows)
    w, r = ctx.rng.integers(1, 6, n).astype(float), ctx.rng.poisson(1.2, n)
    u = w * np.round(ctx.rng.uniform(0, 1, n), 2)
    trans, kinds = {"X": np.sum}, {"X": "sum"}
    ctx.note(case.rows, w.tolist(), r.tolist(), u.tolist(), case.add)
    ctx.sig(tuple(case.rows))
    kind, idx = case.index(ctx)
    axes, a = run(ctx, case, idx, kind, w, r, trans, kinds, ("w", "r"))
    again = frames.Case.__new__(frames.Case)
    again.__dict__.update(case.__dict__)
    again.rows = case.rows + case.rows
    kind2, idx2 = again.index(ctx)
    axes2, b = run(ctx, again, idx2, kind2, np.concatenate([u, w - u]),
                   np.concatenate([r, r]), trans, kinds, ("w", "r"))
    if kind == kind2 and kind not in ("explicit", "slice"):
        for k in a:
            ctx.close(b[k], a[k], "split rows", rtol=1e-10, atol=1e-10)


WORKLOADS = [("weighted", weighted, 700, 10000), ("split", split, 150, 2000)]
