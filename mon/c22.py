"""C22: information criteria vs their definitions on an independent objective."""
import numpy as np
import maxlike
from .core import Skip, Violation
from .models import *

RULE = ("random models of all classes (with and without masks, constraints, penalties, empty "
        "cells, extra parameters) before and after fits by both methods; both criteria compared "
        "with the definitions, evaluated with an independent mean log-likelihood, the number of "
        "observations of the data and the number of free entries. Distinct by model.")


def judge(ctx, m, l, n, free, total, c, kind):
    for extra in (0, 0, ctx.randint(1, 5)):
        aic = {k: 2 * k / (n - k - 1) - 2 * l if n != k + 1 else np.nan
               for k in (free - c + extra, total - c + extra)}
        bic = {k: k * np.log(n) / n - 2 * l for k in aic}
        for name, fn, want in (("AIC", m.akaine_information_criterion, aic),
                               ("BIC", m.bayesian_information_criterion, bic)):
            args = () if extra == 0 and ctx.chance(.5) else (extra,)
            v = ctx.call(name, fn, *args)
            v = float(v)
            ctx.event("judged:" + name)
            right, all_ = want[free - c + extra], want[total - c + extra]
            if np.isnan(right) or np.isnan(all_):
                ctx.event("n = k + 1")
                continue
            ok = lambda w: abs(v - w) <= 1e-9 * (1 + abs(w))
            if ok(right):
                continue
            if total != free and ok(all_):
                ctx.finding("fixed-entries", "%s counts fixed entries: %r instead of %r" % (
                    name, v, right))
                continue
            raise Violation(name, "%s (extra %d): %r instead of %r, k = %d, n = %r, l = %r" % (
                kind, extra, v, right, free - c + extra, n, l))


def criteria(ctx):
    mod = well_posed(ctx, masks=ctx.chance(.5))
    if ctx.chance(.3):
        # exposures and counts in other units
        c = ctx.choice([.01, .37, 1.2345, 12.5])
        mod.data = {k: v * c for k, v in mod.data.items()}
        ctx.note("unit", c)
    if not mod.valid(mod.flat()):
        raise Skip()
    m = mod.build()
    n = float(mod.data["N"].sum())
    total = len(mod.flat())
    free = int((~mod.mask()).sum())
    c = len(mod.cons)
    ctx.event("models with fixed entries", int(free != total))
    mod.load(m)
    judge(ctx, m, mod.mean(mod.flat()), n, free, total, c, "start")
    method = ctx.choice(["newton", "newton", "broyden"])
    try:
        m.fit(method=method, max_steps=80, **mod.data)
    except Exception:
        ctx.event("failed fit")
    else:
        ctx.event("successful fit")
    x = mod.flat([np.ma.getdata(p) for p in m.get_params()])
    judge(ctx, m, mod.mean(x), n, free, total, c, "fit")
    # other data, with the same parameters
    data = {k: v * 2 for k, v in mod.data.items()}
    keep, mod.data = mod.data, data
    mod.load(m)
    judge(ctx, m, mod.mean(x), 2 * n, free, total, c, "other data")
    mod.data = keep


def determined(ctx):
    """As many constraints as free entries, or one less: k = 0, 1, or the extra parameters only."""
    mod = well_posed(ctx, masks=False)
    if not mod.valid(mod.flat()):
        raise Skip()
    m = mod.build()
    free, left = len(mod.flat()), ctx.choice([0, 0, 1])
    n = float(mod.data["N"].sum())
    while len(m.constraint) < free - left:
        m.add_constraint([ctx.randint(0, len(m.params) - 1)], Linear([1.0]))
    mod.load(m)
    judge(ctx, m, mod.mean(mod.flat()), n, free, free, len(m.constraint), "k = %d" % left)
    ctx.event("determined models")


WORKLOADS = [("criteria", criteria, 500, 8000), ("determined", determined, 150, 3000)]
