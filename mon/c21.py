"""C21: error estimates vs the inverse of the independently derived information."""
import numpy as np
import maxlike
from .core import Skip, Violation
from .models import *
from .c19 import blocks

RULE = ("random identifiable models of all classes (masks, gauge and binding linear constraints, "
        "penalties, interactions, any order of scalar, vector and matrix parameters) are fitted by "
        "Newton with tolerances from 1e-8 to 1e-13; error matrix blocks and standard errors are "
        "compared with the inverse of the bordered Hessian of an independent log-likelihood at the "
        "fitted point, and with closed forms of saturated models. Distinct by model.")
ASSUMPTIONS = ["the library keeps the Hessian of the last but one iterate, so that the precision "
               "of the reports is the one of the convergence (1e-6 + 20 sd sqrt(2 tol N |l|))"]


def reports(ctx, mod, m, tol):
    free = np.flatnonzero(~mod.mask())
    x = mod.flat([np.ma.getdata(p) for p in m.get_params()])
    H = mod.hess(x, 5e-4)[np.ix_(free, free)]
    J = mod.jac(x)[:, free]
    c = len(J)
    B = np.vstack([np.hstack([H, J.T]), np.hstack([J, np.zeros((c, c))])]) if c else H
    s = np.linalg.svd(B, compute_uv=False)
    if s.min() < 1e-4 * s.max():
        raise Skip()
    Z = -np.linalg.inv(B)[:len(free), :len(free)]
    w = np.linalg.eigvalsh(.5 * (Z + Z.T))
    if w.min() < -1e-9 * np.abs(w).max():
        raise Skip()        # not a maximum (C18)
    masks = [np.zeros(np.shape(p), bool) if k is None else
             np.broadcast_to(k, np.shape(p)) for p, k in zip(mod.params, mod.masks)]
    sd = np.sqrt(np.maximum(np.diag(Z), 0))
    unit = np.outer(sd, sd)
    # the last step gained at most tol, relatively
    rtol = 1e-6 + 20 * sd.max() * np.sqrt(2 * tol * mod.data["N"].sum() * (
        abs(mod.mean(x)) + 1e-3))
    em = ctx.call("error_matrix", m.error_matrix)
    want = blocks(mod, Z, free, len(x))
    tols = blocks(mod, unit, free, len(x))
    K = len(mod.params)
    ctx.check(len(em) == K and all(len(r) == K for r in em), "error matrix: blocks")
    for i in range(K):
        for j in range(K):
            b = np.ma.filled(np.ma.array(em[i][j], dtype=float), np.nan)
            sh = np.shape(mod.params[i]) + np.shape(mod.params[j])
            ctx.check(b.shape == sh, "error matrix: shape", lambda: "%s" % (b.shape,))
            out = np.logical_or.outer(masks[i], masks[j]).reshape(sh)
            ctx.check(np.all(np.isnan(b[out]) | (b[out] == 0)),
                      "error matrix: fixed entries carry no error")
            err = np.abs(b - want[i][j])[~out]
            lim = (rtol * tols[i][j] + 1e-12 + rtol * 1e-3 * unit.max())[~out]
            ctx.check(np.all(err <= lim), "error matrix: entries",
                      lambda: "%d,%d: %s instead of %s" % (i, j, b, want[i][j]))
            ctx.event("covariances", int((~out).sum()))
    se = ctx.call("std_error", m.std_error)
    ctx.check(len(se) == K, "standard errors: number")
    k = 0
    for i in range(K):
        ctx.check(np.shape(se[i]) == np.shape(mod.params[i]), "standard errors: shape")
        v = np.asarray(np.ma.getdata(se[i]), dtype=float)
        q = np.asarray(np.ma.getmaskarray(se[i]))
        f = v[masks[i]]
        ctx.check(np.all(np.isnan(f) | (f == 0) | q[masks[i]]),
                  "standard errors: fixed entries carry no error")
        n = int((~masks[i]).sum())
        d = sd[k:k + n]
        k += n
        v = v[~masks[i]]
        tiny = d < 1e-4 * sd.max()      # determined by the constraints
        ctx.check(np.all(np.abs(v - d)[~tiny] <= rtol * d[~tiny] + rtol * 1e-3 * sd.max()),
                  "standard errors: entries", lambda: "%s instead of %s" % (v, d))
        ctx.event("standard errors", n)
    if c:
        ctx.event("bordered by constraints", c)


def tolerance(ctx):
    return ctx.choice([1e-8, 1e-11, 1e-12, 1e-13])


def asked(ctx, m, mod=None):
    """any of the reports, possibly after a fit, whose answers do not matter here"""
    if mod:
        try:
            m.fit(method=ctx.choice(["broyden", "newton"]), max_steps=60, **mod.data)
            ctx.event("asked after a fit")
        except Exception:
            return
    for f in (m.std_error, m.error_matrix, m.fisher_matrix):
        if ctx.chance(.6):
            try:
                f()
            except Exception:
                ctx.event("no report of an unfinished fit")


def well(ctx, mod):
    n = int((~mod.mask()).sum())
    if n == 0 or not mod.valid(mod.flat()):
        raise Skip()
    tol = tolerance(ctx)
    late = ctx.chance(.2)
    if late:
        # reports asked for before the last constraints and penalties are added
        c, r = ctx.randint(0, len(mod.cons)), ctx.randint(0, len(mod.regs))
        m = mod.build(None, None, c, r)
        asked(ctx, m, mod)
        mod.add(m, mod.cons[c:], mod.regs[r:])
        mod.start(m)
        ctx.event("conditions added after reports", len(mod.cons) - c + len(mod.regs) - r)
    else:
        m = mod.build()
    if ctx.chance(.1):
        # reports asked for when other entries are fixed
        m.reset_params()
        for p in mod.params:
            k = ctx.rng.random(np.shape(p)) < .4
            if np.shape(p) and not k.all():
                m.add_param(np.array(p), k)
            else:
                m.add_param(np.array(p))
        asked(ctx, m, mod)
        mod.start(m)
        ctx.event("other entries fixed before")
    kw = {"method": "newton"} if ctx.chance(.3) else {}
    start = far(ctx, mod) if ctx.chance(.3) else None
    if start:
        mod.start(m, start)
        ctx.event("start many steps away")
    if ctx.chance(.3) and not late:
        # also a fit before, possibly of other data
        c = ctx.choice([1, 1, 2.5, .4])
        try:
            m.fit(method=ctx.choice(["broyden", "newton"]), max_steps=100,
                  **{k: c * v for k, v in mod.data.items()})
            asked(ctx, m)
        except Exception:
            mod.start(m, start)
        if c != 1 or start:
            mod.start(m, start)
    try:
        m.fit(tol=tol, max_steps=60, **kw, **mod.data)
    except Exception as e:
        ctx.event("failed fit")
        raise Skip()
    ctx.note("tol", tol)
    ctx.sig(tol)
    reports(ctx, mod, m, tol)


def regressions(ctx):
    well(ctx, well_posed(ctx))


def shapes(ctx):
    """interactions, and products with masked entries of higher order"""
    rng = ctx.rng
    F = [ctx.randint(2, 3) for _ in range(ctx.randint(2, 3))]
    N = len(F)
    kind = ctx.choice(["poisson", "logistic", "nb", "zip"])
    hyper = hyper_of(ctx, kind)
    if kind == "zip":
        hyper = 1.5
    eta = Eta(F)
    values, masks, regs = [], [], []
    alone = ctx.chance(.25)
    if alone:
        # a single parameter at several places
        F[:] = [F[0]] * N
        v = rng.uniform(-.4, .4, F[0])
        for i in ctx.sample(N, ctx.randint(1, N)):
            eta.add(X(), [0], [i], ctx.choice([1, 1, -1, .5]), lambda p: p[0])
        values.append(v)
        masks.append(np.asarray(rng.random(v.shape) < ctx.choice([0, 0, .3])))
        regs.append([0])
    for _ in range(0 if alone else ctx.randint(1, 3)):
        fm = ctx.sample(N, ctx.randint(0, N))
        v = rng.uniform(-.4, .4, [F[i] for i in fm])
        eta.add(X(), [len(values)], fm, ctx.choice([1, -1, .5]), lambda p: p[0])
        values.append(v)
        masks.append(np.asarray(rng.random(v.shape) < ctx.choice([0, .2, .5])))
        regs.append([len(values) - 1])
    order = ctx.perm(len(values))
    where = list(np.argsort(order))
    e = eta.expr(ctx, order)
    values, masks = [values[k] for k in where], [masks[k] for k in where]
    y = np.broadcast_to(e.ref([v[None] for v in values])[0], F)
    data = sample_data(ctx, kind, hyper, y, 5, 40, .1)
    R = [ridge(ctx, [order[r[0]]]) for r in regs]
    cons = []
    if ctx.chance(.5):
        # weighted sum of all the entries of some parameter
        k = ctx.randint(0, len(values) - 1)
        if (~masks[k]).sum() > 1:
            w = rng.uniform(.5, 1.5, np.shape(values[k]))
            c = float((w * values[k]).sum())
            cons.append(([k], Linear([w]) - c, lambda p, w=w, c=c: (w * p[0]).sum(
                tuple(range(1, p[0].ndim))) - c))
    mod = Model(kind, hyper, e, values, masks, cons, R, data)
    ctx.note(kind, hyper, F, [v.shape for v in values], e.text,
             [m.astype(int).tolist() for m in masks], "cons", [c[0] for c in cons])
    ctx.sig(kind, tuple(F), [v.shape for v in values], e.text)
    well(ctx, mod)


def closed(ctx):
    """saturated models have closed forms"""
    rng = ctx.rng
    kind = ctx.choice(["poisson", "logistic", "nb"])
    r = ctx.choice([1, .5, 3.])
    n = ctx.randint(1, 5)
    N = rng.integers(10, 60, n).astype(float)
    if kind == "poisson":
        Xs = rng.poisson(N * rng.uniform(.5, 2, n)) + 2.
        m = maxlike.Poisson()
        var = 1 / Xs
        est = np.log(Xs / N)
    elif kind == "logistic":
        Xs = np.clip(rng.binomial(N.astype(int), rng.uniform(.2, .8, n)), 2, N - 2).astype(float)
        p = Xs / N
        m = maxlike.Logistic()
        var = 1 / (N * p * (1 - p))
        est = np.log(p / (1 - p))
    else:
        Xs = rng.poisson(N * rng.uniform(.5, 2, n)) + 2.
        mu = Xs / N
        m = maxlike.NegativeBinomial(r)
        var = (1 / mu + 1 / r) / N
        est = np.log(mu)
    close = .2
    if ctx.chance(.4):
        # cells with very different weights; the light ones hardly change the
        # objective, that decides about the convergence
        close = 1e-9
        c = 10. ** rng.uniform(0, 6.5, n)
        N, Xs, var = N * c, Xs * c, var / c
    mask = rng.random(n) < .3
    v0 = est + close * rng.uniform(-1, 1, n)
    ctx.note(kind, N.tolist(), Xs.tolist(), mask.tolist(), r)
    ctx.sig(kind, tuple(Xs), tuple(N))
    if mask.all():
        mask[0] = False
    m.model = Sum(1).add(X(), 0, 0)
    m.add_param(v0, mask)
    try:
        m.fit(tol=1e-13, max_steps=50, N=N, X=Xs)
    except Exception as e:
        ctx.event("failed fit")
        try:
            m.fit(tol=1e-11, max_steps=50, N=N, X=Xs)
        except Exception as e:
            raise Violation("saturated model not solved", "%s: %s" % (type(e).__name__, e))
    ctx.close(np.ma.getdata(m.get_params()[0])[~mask], est[~mask], "closed form: estimates",
              rtol=1e-5, atol=1e-5)
    s = np.ma.getdata(m.std_error()[0])[~mask]
    ctx.close(s, np.sqrt(var)[~mask], "closed form: standard errors", rtol=1e-5)
    E = np.ma.filled(np.ma.array(m.error_matrix()[0][0], dtype=float), np.nan)
    sd = np.sqrt(var[~mask])
    ctx.close(E[np.ix_(~mask, ~mask)] / np.outer(sd, sd), np.eye(len(sd)),
              "closed form: error matrix", rtol=1e-5, atol=1e-6)


WORKLOADS = [("regressions", regressions, 500, 9000), ("shapes", shapes, 300, 5000),
             ("closed", closed, 250, 3000)]
