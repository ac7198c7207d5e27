"""C17: assembled gradient and Hessian vs derivatives of independent objectives."""
import numpy as np
import maxlike
from maxlike.func import *
from .core import Skip, Violation
from .exprs import *
from .models import *
from . import c16

RULE = ("every model class with random nested expressions (shared, permuted and unused "
        "parameters, extra dims), random data, masks (none, some, all entries of a parameter), "
        "linear / quadratic / nonlinear constraints and penalties on parameters in any order, "
        "repeated or overlapping; assembled gradient compared entry by entry with complex-step "
        "derivatives, assembled Hessian with differences of them, bordered by constraint "
        "gradients. Distinct by model, expression, masks and placements.")


def level(ctx, g, F, P, e):
    """adds terms that are the same for all outcomes, with parameters of their own"""
    N, n, al = len(F), len(P), list(range(len(P)))
    more = g.problem(max_feat=len(F))[1] if len(F) == 1 else []
    Q = [(), (F[0],)][:ctx.randint(1, 2)] + [p for p in more if p == (F[0],)]
    t = g.bounded(F, Q, 0, .1, .9, full=ctx.chance(.5))
    at = list(range(n, n + len(Q)))
    if ctx.chance(.4):
        # shares a parameter
        k = ctx.randint(0, n - 1)
        if tuple(P[k]) == tuple(Q[-1]):
            at[-1] = k
            Q = Q[:-1]
    s = Sum(N, e.d).add(e.f, al, list(range(N)), list(range(e.d)))
    s.add(t.f, at, list(range(N)))
    return E(s, lambda p: put(e.ref(p[:n]), N, e.d, list(range(N)), N, list(range(e.d)), e.d) +
             put(t.ref([p[k] for k in at]), N, 0, list(range(N)), N, [], e.d), N, e.d,
             "(%s) + level p%s (%s)" % (e.text, at, t.text)), list(P) + list(Q)


def wild(ctx, kind=None):
    kind = kind or ctx.choice(KINDS)
    hyper = hyper_of(ctx, kind)
    g = Gen(ctx)
    F, P = g.problem(max_feat=3 if kind not in ("finite", "nfinite") else 2)
    depth = ctx.randint(0, 2)
    if kind in ("finite", "nfinite"):
        what = ctx.choice(["counts", "markov", "joint", "outcome"])
        e = g.outcome(g.joint(F, P, 0)) if what == "outcome" else \
            g.counts(F, P, depth) if what == "counts" else \
            getattr(g, what)(F, P, 0)
        if "LogNB" in e.text:
            e0 = e
            e = E(Exp() @ e0.f, lambda p: np.exp(e0.ref(p)), e0.n, e0.d, "Exp@" + e0.text)
        if ctx.chance(.35):
            e, P = level(ctx, g, F, P, e)
        hyper = e.d
    elif ctx.chance(.3):
        e = g.expr(F, P, 0)
    else:
        e = g.bounded(F, P, depth, -1.5, 1.5)
    params = g.values(P)
    y = e.ref([np.asarray(p)[None] for p in params])[0]
    y = np.broadcast_to(y, tuple(F) + y.shape[len(F):])
    if not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 8 or \
            (kind in ("finite", "nfinite") and np.min(y) < 1e-3):
        raise Skip()
    data = sample_data(ctx, kind, hyper, y, 1, 9, .15)
    if data["N"].sum() == 0:
        raise Skip()
    masks = []
    for p in P:
        how = ctx.choice(["none", "none", "some", "some", "all"])
        masks.append(None if how == "none" else
                     np.ones(p, bool) if how == "all" else ctx.rng.random(p) < .4)
    if all(m is not None and np.all(m) for m in masks):
        masks[0] = None
    C = [scalar_function(ctx, P) for _ in range(ctx.choice([0, 0, 1, 1, 2, 3]))]
    R = [scalar_function(ctx, P) for _ in range(ctx.choice([0, 0, 1, 2]))]
    mod = Model(kind, hyper, e, params, masks, C, R, data)
    ctx.note(kind, hyper, F, P, e.text[:300], "masks",
             [None if m is None else np.asarray(m).astype(int).tolist() for m in masks],
             "constraints", [(c[0], type(c[1]).__name__) for c in C],
             "regs", [(c[0], type(c[1]).__name__) for c in R])
    ctx.sig(kind, tuple(F), tuple(P), e.text, [c[0] for c in C], [c[0] for c in R])
    return mod


def judge_point(ctx, mod, m, flat):
    if not mod.valid(flat):
        ctx.event("point not valid")
        return
    mod.start(m, mod.unflat(flat))
    ps = m.params
    free = np.flatnonzero(~mod.mask())
    nf, nc = len(free), len(mod.cons)
    grad = mod.grad(flat)[0][free]
    want = np.concatenate([grad, mod.con(flat[None])[0]])
    size = 1 + np.abs(mod.total(flat[None])[0])
    which = ctx.choice(["eval", "separate"])
    if which == "eval":
        y, der, hess = ctx.call("eval", m.model.eval, ps)
    else:
        y, der = ctx.call("model", m.model, ps), ctx.call("grad", m.model.grad, ps)
        hess = ctx.call("hess", m.model.hess, ps)
    got = ctx.call("flat_grad", m.flat_grad, ps, y, der)
    got = np.asarray(got, dtype=float)
    ctx.check(got.shape == (nf + nc,), "gradient size", lambda: "%s" % (got.shape,))
    scale = 1 + np.max(np.abs(want)) if want.size else 1
    ctx.close(got[:nf], want[:nf], "score", rtol=1e-8, atol=1e-9 * scale)
    ctx.close(got[nf:], want[nf:], "constraint values", rtol=1e-8, atol=1e-9)
    H = np.zeros((nf + nc, nf + nc))
    sel = np.ix_(free, free)
    coarse, fine = mod.hess(flat, 1e-3)[sel], mod.hess(flat, 5e-4)[sel]
    err = float(np.max(np.abs(coarse - fine))) if nf else 0.
    H[:nf, :nf] = fine
    J = mod.jac(flat)[:, free]
    H[nf:, :nf] = J
    H[:nf, nf:] = J.T
    got = np.asarray(ctx.call("flat_hess", m.flat_hess, ps, y, der, hess), dtype=float)
    ctx.check(got.shape == H.shape, "hessian size", lambda: "%s" % (got.shape,))
    scale = 1 + np.max(np.abs(H))
    ctx.close(got[nf:], H[nf:], "border", rtol=1e-8, atol=1e-9)
    ctx.close(got[:, nf:], H[:, nf:], "border", rtol=1e-8, atol=1e-9)
    if err < 1e-4 * scale:
        ctx.close(got[:nf, :nf], H[:nf, :nf], "information", rtol=1e-7,
                  atol=1e-8 * scale + 10 * err)
    else:
        ctx.event("differences not conclusive")
    ctx.close(got, got.T, "symmetric", rtol=1e-9, atol=1e-9 * scale)
    # the library's own objective, along a direction
    if nf and ctx.chance(.3):
        d = np.zeros(len(flat))
        d[free] = ctx.rng.choice([-1., 1.], nf)

        def slope(h):
            v = [m.g([np.asarray(p) for p in mod.unflat(flat + c * h * d)])
                 for c in (2, 1, -1, -2)]
            return (-v[0] + 8 * v[1] - 8 * v[2] + v[3]) / (12 * h) * mod.data["N"].sum()
        coarse, fine = slope(1e-3), slope(5e-4)
        err = abs(coarse - fine)
        if err < 1e-3 * size:
            ctx.close(fine, grad @ d[free], "slope of the objective", rtol=1e-7,
                      atol=1e-8 * size + 20 * err)
    ctx.event("entries", nf)
    ctx.event("constraints", nc)


def judge(ctx, mod):
    m = mod.build()
    mod.load(m)
    flat = mod.flat()
    judge_point(ctx, mod, m, flat)
    if ctx.chance(.5):
        other = flat + np.where(mod.mask(), 0, ctx.rng.uniform(-.2, .2, flat.shape))
        judge_point(ctx, mod, m, other)


def nested(ctx):
    judge(ctx, wild(ctx))


def regression(ctx):
    mod = well_posed(ctx)
    judge(ctx, mod)


def extreme(ctx):
    """large predictors; each cell with its own magnitude and closed form"""
    kind = ctx.choice(["poisson", "zip", "logistic", "logistic", "nb"])
    hyper = hyper_of(ctx, kind)
    if kind == "nb" and ctx.chance(.4):
        hyper = float(ctx.choice([1e-3, .02, 30, 200, 1e4]))
    if kind == "zip" and ctx.chance(.3):
        hyper = float(ctx.choice([0, 0, 1e-3, .05, 50, 1e3]))
    F = [ctx.randint(1, 5)]
    wide = {"poisson": 14, "nb": 14, "zip": 5, "logistic": 32}[kind]
    y = ctx.rng.choice([-1, 1], F) * ctx.rng.uniform(ctx.choice([0, wide * .4]), wide, F)
    N = ctx.rng.integers(1, 2000, F).astype(float)
    m = np.exp(y)
    if kind == "logistic":
        p, q = expit(y), expit(-y)
        x = ctx.rng.binomial(N.astype(int), ctx.choice([p, .5])).astype(float)
        g, h, size, fine = x - N * p, -N * p * q, N, N
    elif kind == "poisson":
        x = ctx.rng.poisson(N * m * ctx.choice([1, .5, 2])).astype(float)
        g, h, size, fine = x - N * m, -N * m, x + N * m, N * m
    elif kind == "nb":
        r = hyper
        x = ctx.rng.poisson(N * m * ctx.choice([1, .5, 2])).astype(float)
        w = x + r * N
        g, h = x - w * m / (r + m), -w * r * m / (r + m) ** 2
        size, fine = w, w
    else:
        x = ctx.rng.poisson(N * m).astype(float) + (N if hyper == 0 else 0)
        c = 1 + (hyper - 1) * np.exp(-m)
        t = m / c
        g = x - N * t
        h = -N * t * (1 + t * (hyper - 1) * np.exp(-m))
        size, fine = x + N * t, N * t * (1 + m)
    data = {"N": N, "X": x}
    if kind == "zip":
        data["Z"] = np.minimum(np.floor(N * ctx.rng.uniform(0, 1, F)), N) * (
            hyper > 0)
    e = E(X(), lambda p: p[0], 1, 0, "X")
    mod = Model(kind, hyper, e, [y], [None], [], [], data)
    ctx.note(kind, hyper, "y", y.tolist(), "N", N.tolist(), "X", x.tolist())
    ctx.sig(kind, hyper, np.round(y, 1).tolist())
    lib = mod.build()
    mod.load(lib)
    mod.start(lib, [y])
    val, der, hess = ctx.call("eval", lib.model.eval, lib.params)
    got = np.asarray(ctx.call("flat_grad", lib.flat_grad, lib.params, val, der), float)
    ctx.check(np.all(np.abs(got - g) <= 1e-9 * size), "extreme score " + kind,
              lambda: "%s instead of %s" % (got, g))
    got = np.asarray(ctx.call("flat_hess", lib.flat_hess, lib.params, val, der, hess), float)
    ctx.check(np.count_nonzero(got - np.diag(np.diag(got))) == 0, "extreme other cells")
    got = np.diag(got)
    ctx.check(np.all(np.abs(got - h) <= 1e-8 * np.abs(h) + 1e-14 * fine),
              "extreme information " + kind, lambda: "%s instead of %s" % (got, h))
    ctx.event("extreme cells", len(y))


def unlikely(ctx):
    mod, _, g, h = rare(ctx)
    N = mod.data["N"]
    lib = mod.build()
    mod.load(lib)
    mod.start(lib, mod.params)
    val, der, hess = ctx.call("eval", lib.model.eval, lib.params)
    got = np.asarray(ctx.call("flat_grad", lib.flat_grad, lib.params, val, der), float)
    size = (N * np.abs(g)).sum(-1)
    g, want = (N * g).sum(-1), (N * h).sum(-1)
    ctx.check(np.all(np.abs(got - g) <= 1e-9 * size + 1e-12), "unlikely score " + mod.kind,
              lambda: "%s instead of %s" % (got, g))
    got = np.asarray(ctx.call("flat_hess", lib.flat_hess, lib.params, val, der, hess), float)
    ctx.check(np.count_nonzero(got - np.diag(np.diag(got))) == 0, "unlikely other cells")
    x = np.arange(N.shape[1])
    bound = 1e-9 * (N * (np.abs(h) + (x + 1) ** 2 / mod.params[0][:, None] ** 2)).sum(-1)
    ctx.check(np.all(np.abs(np.diag(got) - want) <= bound + 1e-12),
              "unlikely information " + mod.kind,
              lambda: "%s instead of %s" % (np.diag(got), want))


WORKLOADS = [("unlikely", unlikely, 300, 4000), ("extreme", extreme, 600, 9000), ("nested", nested, 700, 10000), ("regression", regression, 400, 6000)]
