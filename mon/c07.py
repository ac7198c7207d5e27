"""C07: Hessians vs second derivatives of the formula."""
import numpy as np
from .core import Skip, Violation
from .dense import *
from .exprs import *
from .c05 import setup, setup_mixed, in_range
from .c06 import leaf_expr, extreme_leaf, judge_own, forms, judge_form

RULE = ("random expression trees as for C05 and all leaf, count, score, tennis and collapse "
        "functions; Hessian blocks of every parameter pair (i >= j) compared entry by entry "
        "with fourth-order differences (two step sizes) of the exact complex-step gradient of "
        "an independent evaluation of the formula, plus symmetry of diagonal blocks. Distinct by "
        "expression and shapes.")


def reference(e, params):
    """second derivatives and the error allowed to them"""
    H, fine = ref_hess(e, params, 2e-3), ref_hess(e, params, 1e-3)
    in_range(H, fine)
    scale = max(1., float(np.max(np.abs(fine))) if fine.size else 1.)
    err = float(np.max(np.abs(H - fine))) if fine.size else 0.
    if err > 1e-4 * scale:
        raise Skip()        # the differences are not conclusive
    return fine, 2 * err + 1e-9 * scale


def block(ctx, h, a, want, kind, atol):
    judge_tol(ctx, h, a, want, kind, atol)


def judge_tol(ctx, t, a, g, kind, atol):
    ctx.check(isinstance(t, BaseTensor), kind + ":type", lambda: "%s" % type(t))
    have = groups(t)
    for h, w in zip(have, g):
        ctx.check(h == w or h == 0, kind + ":groups",
                  lambda: "groups %s instead of %s" % (have, g))
    got = align(dense_of(t), have, g)
    shape = np.broadcast_shapes(got.shape, a.shape)
    ctx.check(all(s == 1 or w == 1 or s == w for s, w in zip(got.shape, a.shape)),
              kind + ":shape", lambda: "shape %s instead of %s" % (got.shape, a.shape))
    ctx.close(np.broadcast_to(got, shape), np.broadcast_to(a, shape), kind, rtol=0,
              atol=atol)


def judge_all(ctx, e, params, H, atol, how):
    sl = slices(params)
    tri = None
    if how == "eval":
        tri = ctx.call("eval", e.f.eval, params)[2]
    elif how == "hess":
        tri = ctx.call("hess", e.f.hess, params)
    if tri is not None:
        ctx.check([len(r) for r in tri] == list(range(1, len(params) + 1)),
                  "structure(%s)" % how)
    for i in range(len(params)):
        for j in range(i + 1):
            h = tri[i][j] if tri is not None else \
                ctx.call("hess", e.f.hess, params, i, j)
            pi, pj = np.shape(params[i]), np.shape(params[j])
            a = H[sl[i], sl[j]]
            a = a.reshape(pi + pj + a.shape[2:])
            kind = "hessian(%s)%s" % (how, "" if i == j else "-cross")
            judge_tol(ctx, h, a, (len(pi), len(pj), e.n, e.d), kind, atol)
            if np.any(np.abs(a) > atol):
                ctx.event("non-null blocks" if i == j else "non-null cross blocks")
            if i == j:
                d = align(dense_of(h), groups(h), (len(pi), len(pi), e.n, e.d))
                d = np.broadcast_to(d, pi + pi + d.shape[2 * len(pi):])
                n = int(np.prod(pi))
                d = d.reshape((n, n) + d.shape[2 * len(pi):])
                ctx.close(d, d.swapaxes(0, 1), "symmetry", rtol=1e-9,
                          atol=1e-9 * max(1., np.max(np.abs(d))))


def expressions(ctx):
    g, F, P, e, params = setup(ctx)
    H, atol = reference(e, params)
    for how in ("hess", "eval"):
        judge_all(ctx, e, params, H, atol, how)
    if ctx.chance(.3):
        judge_all(ctx, e, params, H, atol, "single")


def mixed(ctx):
    g, F, P, e, params = setup_mixed(ctx)
    H, atol = reference(e, params)
    for how in ("hess", "eval"):
        judge_all(ctx, e, params, H, atol, how)


def again(ctx):
    """one object at several points"""
    if ctx.chance(.5):
        e, params = leaf_expr(ctx)
        ctx.note(e.text); ctx.sig(e.text, [np.shape(p) for p in params])
        if e.text == "cm":
            raise Skip()
    else:
        g, F, P, e, params = setup(ctx, depth=ctx.randint(0, 1))
    for c, now in moved(ctx, params, 2):
        H, atol = reference(e, now)
        # (indices are taken from c, derivatives of the copies)
        for how in ctx.choice([("hess",), ("eval",), ("single",), ("eval", "hess")]):
            judge_all(ctx, e, c, H, atol, how)


def deep(ctx):
    g, F, P, e, params = setup(ctx, depth=4, what="expr")
    H, atol = reference(e, params)
    judge_all(ctx, e, params, H, atol, "hess")


def coupled(ctx):
    """sums of products of parameters: every cross block counts"""
    g, F, P, e, params = setup(ctx, depth=0, what="interactions", min_feat=2)
    H, atol = reference(e, params)
    for how in ("hess", "eval"):
        judge_all(ctx, e, params, H, atol, how)


def wide(ctx):
    g, F, P, e, params = setup(ctx, depth=0, what="wide")
    H, atol = reference(e, params)
    for how in ("hess", "eval"):
        judge_all(ctx, e, params, H, atol, how)


def leaves(ctx):
    e, params = leaf_expr(ctx)
    if e.text == "cm":
        h = ctx.call("hess", e.f.hess, params[0], 0, 0)
        ctx.check(np.all(np.asarray(dense_of(h)) == 0), "hessian(linear)")
        return
    ctx.note(e.text, [np.shape(p) for p in params],
             [np.round(p, 3).tolist() for p in params])
    ctx.sig(e.text, [np.shape(p) for p in params])
    H, atol = reference(e, params)
    for how in ("hess", "eval", "single"):
        judge_all(ctx, e, params, H, atol, how)


def extremes(ctx):
    """functions at the ends of their range, judged with the magnitude of each cell"""
    f, ref, x, d, rates = extreme_leaf(ctx)
    ctx.note(type(f).__name__, x.shape, x.tolist())
    ctx.sig(type(f).__name__, x.shape)
    h = 1e-3 * (np.minimum(1, x) if rates else np.ones(x.shape))
    g = lambda c: ref(x + c * h + 1e-40j).imag / 1e-40
    want = (-g(2) + 8 * g(1) - 8 * g(-1) + g(-2)) / \
        (12 * h[(Ellipsis,) + (None,) * d])
    if not np.all(np.isfinite(want)):
        raise Skip()
    # rounding of the differences
    floor = np.abs(g(0))
    floor = 2e-13 * (floor.max(-1) if d else floor) / h
    floor = floor[(Ellipsis,) + (None,) * d]
    for how, t in (("hess", ctx.call("hess", f.hess, [x], 0, 0)),
                   ("eval", ctx.call("eval", f.eval, [x])[2][0][0])):
        judge_own(ctx, t, x, want, 2, "extreme hessian(%s)" % how, 1e-5, 1e-13 + floor)
        exact = closed_form(f, x)
        if exact is not None:
            judge_own(ctx, t, x, exact, 2, "closed form of the hessian(%s)" % how, 1e-9, 1e-13)
            ctx.event("closed forms")


def closed_form(f, x):
    if isinstance(f, Exp):
        return np.exp(x)
    if isinstance(f, Log):
        return -1 / x ** 2
    if isinstance(f, Logistic):
        return -np.tanh(x / 2) / np.cosh(x / 2) ** 2 / 4
    if isinstance(f, ArcTan):
        return -2 * x / (1 + x * x) ** 2
    if isinstance(f, Affine) and isinstance(f.base, ArcTan):
        return -2 * x / (1 + x * x) ** 2 / np.pi
    if isinstance(f, Poisson):
        v = ref_poisson(x, f.size)
        return np.concatenate([np.zeros(x.shape + (2,)), v], -1)[..., :f.size]
    if isinstance(f, LogNegativeBinomial):
        k, m = np.arange(f.size), x[..., None]
        return (k + f.r) / (f.r + m) ** 2 - k / m ** 2
    return None


def forms_(ctx):
    kind, f, ps, _, h = forms(ctx)
    H = ctx.call("hess", f.hess, ps), ctx.call("eval", f.eval, ps)[2]
    for i, w in enumerate(h):
        for how, t in (("hess", H[0][i][i]), ("eval", H[1][i][i]),
                       ("single", ctx.call("hess", f.hess, ps, i, i))):
            judge_form(ctx, t, np.asarray(w), 2, kind, "form hessian(%s)" % how)
        for j in range(i):
            ctx.check(not dense_of(H[0][i][j]).any() and not dense_of(H[1][i][j]).any(),
                      "form hessian: cross blocks")


WORKLOADS = [("again", again, 150, 2500), ("forms", forms_, 250, 3000), ("extremes", extremes, 500, 7000), ("expressions", expressions, 600, 9000), ("deep", deep, 60, 900), ("wide", wide, 50, 800),
             ("mixed", mixed, 250, 4000), ("coupled", coupled, 300, 5000),
             ("leaves", leaves, 600, 8000)]
