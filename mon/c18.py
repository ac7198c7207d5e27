"""C18: successful fits are stationary constrained maxima."""
import numpy as np
import maxlike
from maxlike.func import X, Scalar, Vector, Constant, Sum, Product, Linear, Quadratic, Exp
from .core import Skip, Violation
from .exprs import E, put
from .models import *

RULE = ("random well-posed regressions of every model class (effects, covariates, offsets, "
        "interactions; identified by constraints, fixed levels or penalties; any parameter "
        "order), binding linear and nonlinear constraints, starts at zero, close to and far "
        "from the maximum, infeasible starts along directions that do not change the "
        "likelihood, both methods, several tolerances. Every reported success is judged by "
        "independent scores and information (KKT residual expressed as the gain still "
        "possible, constraint residuals, curvature) and, for concave problems, by an "
        "independent constrained optimiser. Distinct by model, layout, start and method.")
ASSUMPTIONS = ["the gain still possible may be 50 times the tolerance (relative to the "
               "objective) plus rounding errors"]


def fit(ctx, mod, m, must, **kw):
    """True when the fit reports success"""
    try:
        r = m.fit(**kw, **mod.data)
    except Exception as e:
        ctx.event("failed fit: %s" % type(e).__name__)
        if must:
            raise Violation("well-posed problem not solved", "%s: %s" % (
                type(e).__name__, str(e)[:200]))
        return False
    ctx.check(r is True, "fit returns True", lambda: repr(r))
    ctx.event("successful fit")
    return True


def fitted(mod, m):
    return mod.flat([np.asarray(p.data, dtype=float) for p in m.get_params()])


def lagrangian(mod, x):
    """tangent space, reduced gradient and curvature on the constraint set"""
    free = np.flatnonzero(~mod.mask())
    g = mod.grad(x)[0][free]
    H = mod.hess(x)[np.ix_(free, free)]
    J = mod.jac(x)[:, free]
    Z = np.eye(len(free))
    if len(J):
        lam = np.linalg.lstsq(J.T, g, rcond=None)[0]
        C = mod.hess(x, fn=mod.con)[np.ix_(free, free)]
        H = H - C @ lam
        u, s, vt = np.linalg.svd(J)
        rank = int((s > 1e-8 * max(1, s.max())).sum())
        Z = vt[rank:].T
    return free, Z, Z.T @ g, Z.T @ H @ Z


def judge(ctx, mod, m, tol, start=None, best=None, feasible=True):
    x = fitted(mod, m)
    ctx.check(np.all(np.isfinite(x)), "finite parameters")
    f = mod.mean(x)
    scale = abs(f) + 1e-3
    bound = 50 * tol * scale + 1e-11
    n = mod.data["N"].sum()
    if mod.cons:
        c = np.abs(mod.con(x[None])[0]).max()
        ctx.check(c <= max(tol, 1e-8) + 1e-10, "constraints", lambda: "residual %s" % c)
    free, Z, g, H = lagrangian(mod, x)
    if len(g):
        w, V = np.linalg.eigh(H)
        r = V.T @ g
        gain = float((r ** 2 / (2 * np.maximum(np.abs(w), 1e-3))).sum() / n)
        ctx.check(gain <= bound, "stationary", lambda: "%.3g can be gained (bound %.3g), "
                  "reduced scores %s" % (gain, bound, g))
        ctx.event("tangent directions", len(g))
        if w.max() > 1e-6 * max(1, np.abs(w).max()):
            if mod.kind != "nfinite" and mod.linear:
                raise Violation("maximum", "curvature %s" % w)
            ctx.event("saddle")
            ctx.finding("saddle", "stationary point with curvature %s" % w)
        else:
            # feasible points nearby are not better
            d = (V / np.sqrt(np.maximum(-w, 1e-2))) @ ctx.rng.normal(size=(len(w), 4))
            d = Z @ d
            for k in range(d.shape[1]):
                for s in (.3, -.1):
                    y = x.copy()
                    y[free] += s * d[:, k]
                    if mod.linear and mod.valid(y):
                        fy = mod.mean(y)
                        if mod.concave:
                            ctx.check(not fy > f + bound, "nearby points",
                                      lambda: "%s > %s" % (fy, f))
    else:
        ctx.event("no free direction")
    # what the library says about it
    ctx.close(m.g(m.params), f, "objective", rtol=1e-9, atol=1e-9)
    if start is not None and feasible:
        f0 = mod.mean(start)
        ctx.check(f >= f0 - 1e-11 * scale, "not lower than at the start",
                  lambda: "%r < %r" % (f, f0))
    if best is not None:
        ctx.check(abs(mod.mean(best) - f) <= bound, "independent maximum",
                  lambda: "%r instead of %r" % (f, mod.mean(best)))
        if tol <= 1e-8:
            # the parameters themselves, in units of their own precision
            d = x[free] - best[free]
            Hb = mod.hess(best)[np.ix_(free, free)]
            dist = float(-d @ Hb @ d) / n
            ctx.check(dist <= 4 * bound, "independent estimates",
                      lambda: "%s instead of %s" % (x, best))
        ctx.event("compared with the optimiser")


def solve(ctx, mod):
    """independent maximum, or Skip when the problem isn't well-posed"""
    best, ok = optimum(mod)
    if not ok:
        raise Skip()
    _, _, _, H, _ = reduced(mod, best)
    if H.size and np.linalg.eigvalsh(H).max() > -5e-2:
        raise Skip()
    if np.abs(best).max() > 5:
        raise Skip()
    return best


def options(ctx, method):
    tol = ctx.choice([None, None, None, 1e-5, 1e-10])
    kw = {} if tol is None else {"tol": tol}
    name = {"newton": ctx.choice([None, "newton", "Newton"]),
            "broyden": ctx.choice(["broyden", "Broyden"])}[method]
    if name:
        kw["method"] = name
    kw["max_steps"] = 60 if method == "newton" else 300
    if method == "newton" and tol is None and ctx.chance(.5):
        kw.pop("max_steps")
    ctx.note("fit", kw)
    ctx.sig(sorted(kw.items()))
    return tol or 1e-8, kw


def shifted(ctx, mod):
    """a constant in a penalty, for objectives of any sign"""
    pm, f, ref = mod.regs[-1] if mod.regs else ridge(ctx, [ctx.randint(0, len(mod.params) - 1)], 3.)
    n = mod.data["N"].sum()
    c = float(n * (mod.mean(mod.flat()) - ctx.choice([-1, 1, 1]) * ctx.rng.uniform(.5, 5)))
    mod.regs[-1:] = [(pm, f + c, lambda p: ref(p) + c)]
    ctx.note("objective at the start", mod.mean(mod.flat()))
    ctx.event("shifted objective")


def concave(ctx):
    kind = ctx.choice(["poisson", "poisson", "logistic", "nb", "zip", "finite"])
    mod = well_posed(ctx, kind)
    if ctx.chance(.3):
        shifted(ctx, mod)
    best = solve(ctx, mod)
    method = ctx.choice(["newton", "newton", "broyden"])
    away = ctx.chance(.25)
    start = far(ctx, mod) if away and ctx.chance(.5) else None
    if start:
        ctx.event("start many steps away")
    elif away:
        flat = mod.flat() + np.where(mod.mask(), 0, ctx.rng.uniform(-1.5, 1.5, mod.flat().shape))
        start = mod.unflat(flat)
        ctx.note("far start", np.round(flat, 3).tolist())
    tol, kw = options(ctx, method)
    x0 = mod.flat(start)
    on = lambda x: not mod.cons or np.abs(mod.con(x[None])[0]).max() < 1e-10
    if not on(x0) and mod.linear and ctx.chance(.6):
        free = ~mod.mask()
        x0[free] -= np.linalg.pinv(mod.jac(x0)[:, free]) @ mod.con(x0[None])[0]
        start = mod.unflat(x0)
        ctx.event("start moved to the constraints")
    m = mod.build(start)
    feasible = on(x0)
    # from outside of the constraints the objective may have to decrease,
    # which Newton's method refuses
    if fit(ctx, mod, m, method == "newton" and not away and tol >= 1e-8 and feasible, **kw):
        judge(ctx, mod, m, tol, x0 if method == "newton" else None, best, feasible)
        if ctx.chance(.3):
            # a fit from the maximum stays there
            if fit(ctx, mod, m, False, **kw):
                judge(ctx, mod, m, tol, None, best)


def gauge(ctx):
    """infeasible starts with the likelihood of the maximum"""
    rng = ctx.rng
    kind = ctx.choice(["poisson", "logistic", "nb", "zip", "finite"])
    mod = well_posed(ctx, kind, masks=False, regs=False, covariates=False)
    best = solve(ctx, mod)
    if not mod.cons:
        raise Skip()
    # directions of free parameters that change constraints only
    H = mod.hess(best)
    w, V = np.linalg.eigh(H)
    flat_dirs = V[:, np.abs(w) < 1e-6 * np.abs(w).max()]
    if flat_dirs.shape[1] == 0:
        raise Skip()
    x0 = best + flat_dirs @ rng.normal(size=flat_dirs.shape[1]) * ctx.choice([.1, 1, 3])
    if ctx.chance(.3):
        x0 = x0 + rng.normal(size=len(x0)) * ctx.choice([1e-9, 1e-6, 1e-3])
    ctx.note("start", np.round(x0, 4).tolist())
    method = ctx.choice(["newton", "newton", "broyden"])
    tol, kw = options(ctx, method)
    m = mod.build(mod.unflat(x0))
    if fit(ctx, mod, m, False, **kw):
        judge(ctx, mod, m, tol, None, best)


def binding(ctx):
    """constraints that lower the maximum"""
    rng = ctx.rng
    kind = ctx.choice(["poisson", "logistic", "nb", "zip", "finite"])
    mod = well_posed(ctx, kind, masks=ctx.chance(.5), cons=False)
    x0 = mod.flat()
    P = [np.shape(p) for p in mod.params]
    free = [k for k in range(len(P)) if mod.masks[k] is None or not np.all(mod.masks[k])]
    used = []
    for _ in range(ctx.randint(1, 2)):
        pm = [free[i] for i in ctx.sample(len(free), ctx.randint(1, min(2, len(free))))]
        ws = [rng.uniform(-1, 1, P[k]) if ctx.chance(.5) else 1. for k in pm]
        c = float(sum(np.sum(w * mod.params[k]) for w, k in zip(ws, pm)))
        f = Linear(ws) - c
        ref = lambda p, ws=ws, c=c: sum((w * a).sum(tuple(range(1, a.ndim)))
                                        for w, a in zip(ws, p)) - c
        if ctx.chance(.3):
            # one parameter at several places of the constraint
            ws = [w * ctx.choice([.25, .5, -1.]) for w in ws]
            pm, ws = pm + pm[:1], ws + [rng.uniform(-1, 1, P[pm[0]])]
            c = float(sum(np.sum(w * mod.params[k]) for w, k in zip(ws, pm)))
            f = Linear(ws) - c
            ref = lambda p, ws=ws, c=c: sum((w * a).sum(tuple(range(1, a.ndim)))
                                            for w, a in zip(ws, p)) - c
        mod.cons.append((pm, f, ref))
    J = mod.jac(x0)[:, np.flatnonzero(~mod.mask())]
    s = np.linalg.svd(J, compute_uv=False)
    if s.min() < 1e-3 or len(s) >= J.shape[1]:
        raise Skip()
    best = solve(ctx, mod)
    ctx.note("constraints", [c[0] for c in mod.cons], "multipliers bind")
    ctx.sig("binding", [c[0] for c in mod.cons])
    method = ctx.choice(["newton", "newton", "broyden"])
    tol, kw = options(ctx, method)
    m = mod.build()
    if fit(ctx, mod, m, method == "newton" and tol >= 1e-8, **kw):
        judge(ctx, mod, m, tol, x0 if method == "newton" else None, best)


def nonlinear(ctx):
    """products of parameters, normalised or with binding quadratic constraints"""
    rng = ctx.rng
    n, k = ctx.randint(2, 4), ctx.randint(2, 4)
    kind = ctx.choice(["gauge", "binding"])
    like = ctx.choice(["poisson", "nb", "logistic"])
    a, b = rng.uniform(.4, .9, n), rng.uniform(.4, .9, k)
    F = [n, k]
    swap = ctx.chance(.5)
    ia, ib = (1, 0) if swap else (0, 1)
    if kind == "gauge":
        f = Product(2).add(X(), ia, 0).add(X(), ib, 1)
        ref = lambda p: p[ia][:, :, None] * p[ib][:, None, :]
        eta = a[:, None] * b
    else:
        f = Sum(2).add(X(), ia, 0).add(X(), ib, 1)
        ref = lambda p: p[ia][:, :, None] + p[ib][:, None, :]
        eta = a[:, None] + b
    if like == "logistic":
        shift = -float(eta.mean())
        f, r0 = f + shift, ref
        ref = lambda p: r0(p) + shift
        eta = eta + shift
    e = E(f, ref, 2, 0, kind)
    level = float((b ** 2).sum()) * (1 if kind == "gauge" else ctx.choice([.7, .9, 1.2]))
    q = Quadratic(0, 1) - level
    con = ([ib], q, lambda p: (p[0] ** 2).sum(1) - level)
    hyper = hyper_of(ctx, like)
    data = sample_data(ctx, like, hyper, eta, 20, 80, 0)
    exact = kind == "gauge" and ctx.chance(.5)
    if exact:
        # the start is as likely as the maximum, only the constraint is not satisfied
        data["X"] = data["N"] * (expit(eta) if like == "logistic" else np.exp(eta))
        ctx.event("exact data")
    if kind == "gauge":
        t = ctx.choice([1, rng.uniform(.7, 1.4)])
        if exact:
            t = 1 + ctx.choice([-1, 1]) * 10 ** -rng.uniform(.5, 5)
        s0 = [a * t, b / t]
    else:
        s0 = [a, b * (level / (b ** 2).sum()) ** .5]
    params = [None, None]
    params[ia], params[ib] = s0
    mod = Model(like, hyper, e, params, [None, None], [con], [], data)
    mod.linear = False
    ctx.note(like, hyper, kind, F, [np.round(p, 3).tolist() for p in params], level)
    ctx.sig(like, kind, n, k, swap, round(level, 3))
    method = ctx.choice(["newton", "newton", "broyden"])
    tol, kw = options(ctx, method)
    kw["max_steps"] = 200
    m = mod.build()
    if fit(ctx, mod, m, False, **kw):
        judge(ctx, mod, m, tol)


def stagnation(ctx):
    """
    starts whose first Newton step has to be reduced and then gains nothing: the
    objective of consecutive steps is the same far from the maximum
    """
    from scipy.optimize import brentq
    rng = ctx.rng
    like = ctx.choice(["poisson", "nb", "logistic"])
    hyper = hyper_of(ctx, like)
    r = hyper
    top = float(rng.uniform(-1, 1.5))
    x = float(expit(top)) if like == "logistic" else float(np.exp(top))
    g = {"poisson": lambda y: x * y - np.exp(y),
         "nb": lambda y: x * y - (x + (r or 1)) * np.log((r or 1) + np.exp(y)),
         "logistic": lambda y: -x * np.logaddexp(0, -y) - (1 - x) * np.logaddexp(0, y)}[like]
    d = {"poisson": lambda y: x - np.exp(y),
         "nb": lambda y: x - (x + (r or 1)) * np.exp(y) / ((r or 1) + np.exp(y)),
         "logistic": lambda y: x - expit(y)}[like]
    e = {"poisson": lambda y: np.exp(y),
         "nb": lambda y: (x + (r or 1)) * (r or 1) * np.exp(y) / ((r or 1) + np.exp(y)) ** 2,
         "logistic": lambda y: expit(y) * expit(-y)}[like]
    k = ctx.randint(1, 4)
    side = -1 if like == "poisson" else ctx.choice([-1, 1])

    def same(y):
        """how far the objective is the same again"""
        far = 1.
        while g(y - side * far) > g(y):
            far *= 2
            if far > 500:
                raise Skip()
        return -side * brentq(lambda t: g(y - side * t) - g(y), abs(top - y), far, xtol=1e-14)

    def h(y):
        return -side * (d(y) / e(y) / 2 ** k - same(y))
    # the reduced step of which start ends where the objective is the same?
    lo, hi = top + side * .05, top + side * 9.
    try:
        if not h(lo) < 0 < h(hi):
            raise Skip()
        y0 = brentq(h, lo, hi, xtol=1e-13)
    except (ValueError, OverflowError):
        raise Skip()
    y0 -= side * 10 ** -rng.uniform(9, 11)
    n = float(rng.integers(5, 200))
    data = {"N": np.array(n), "X": np.array(n * x)}
    mod = Model(like, hyper, E(Scalar(), lambda p: p[0], 0, 0, "X"), [np.array(y0)], [None],
                [], [], data)
    mod.concave = mod.linear = True
    ctx.note(like, hyper, "start", y0, "maximum", top, "halvings", k, data)
    ctx.sig(like, hyper, round(top, 3), k, side)
    tol, kw = options(ctx, "newton")
    kw["max_steps"] = 60
    m = mod.build()
    if fit(ctx, mod, m, False, **kw):
        judge(ctx, mod, m, tol, np.array([y0]), np.array([top]))


def scores(ctx):
    """likelihoods of score models, not concave"""
    mod = well_posed(ctx, "nfinite", max_feat=2)
    if not mod.valid(mod.flat()):
        raise Skip()
    x0 = mod.flat()
    feasible = not mod.cons or np.abs(mod.con(x0[None])[0]).max() < 1e-10
    method = ctx.choice(["newton", "newton", "broyden"])
    tol, kw = options(ctx, method)
    m = mod.build()
    if fit(ctx, mod, m, False, **kw):
        judge(ctx, mod, m, tol, x0 if method == "newton" else None, None, feasible)


def saddle(ctx):
    """the recorded finding: a start that is a saddle point of the likelihood"""
    f = Product(0)
    f.add(X(), 0, [])
    f.add(X(), 1, [])
    m = maxlike.Logistic()
    m.model = f
    m.add_param(0.)
    m.add_param(0.)
    method = ctx.choice(["newton", "broyden"])
    ctx.note("logit = a * b from a = b = 0", method)
    ctx.sig(method)
    try:
        r = m.fit(N=10., X=8., method=method)
    except Exception as e:
        ctx.event("refused: %s" % type(e).__name__)
        return
    a, b = [float(p.values) for p in m.params]
    ctx.check(r is True, "fit returns True")
    score = 8 - 10 / (1 + np.exp(-a * b))
    ctx.check(abs(score * a) < 1e-3 and abs(score * b) < 1e-3, "stationary")
    if abs(score) > 1e-3:
        # curvature [[., score], [score, .]] with a = b = 0
        ctx.finding("saddle", "stationary point a = %s, b = %s" % (a, b))


WORKLOADS = [("concave", concave, 400, 8000), ("gauge", gauge, 150, 3000),
             ("binding", binding, 200, 4000), ("nonlinear", nonlinear, 120, 2500),
             ("stagnation", stagnation, 100, 2000),
             ("scores", scores, 80, 1500), ("saddle", saddle, 6, 6)]
