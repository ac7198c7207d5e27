"""C08: one-pass evaluation vs separate calls, parameter containers."""
import numpy as np
from maxlike.maxlike_base import Param
from maxlike.tensor import Tensor
from .core import Skip, Violation
from .dense import *
from .exprs import *
from .c05 import setup, setup_mixed
from .c06 import leaf_expr

RULE = ("random expression trees as for C05 and all leaf, count, score, tennis and collapse "
        "functions, evaluated in one pass and by separate calls with parameters in different "
        "containers (list, tuple, single array, numbers, model parameters with and without "
        "masks); structures and dense values compared. Distinct by expression and container.")


def dense(t, p, q, n, d):
    return align(dense_of(t), groups(t), (p, q, n, d))


def same(ctx, a, b, g, kind):
    for t in (a, b):
        ctx.check(isinstance(t, BaseTensor), kind + ":type", lambda: str(type(t)))
        ctx.check(all(h in (0, w) for h, w in zip(groups(t), g)), kind + ":groups",
                  lambda: "%s instead of %s" % (groups(t), g))
    x, y = (align(dense_of(t), groups(t), g) for t in (a, b))
    shape = np.broadcast_shapes(x.shape, y.shape)
    x, y = np.broadcast_to(x, shape), np.broadcast_to(y, shape)
    scale = max(1., float(np.max(np.abs(y)))) if y.size else 1.
    ctx.close(x, y, kind, rtol=1e-9, atol=1e-10 * scale)


def compare(ctx, f, params, n, d, one, kind=""):
    """one: the result of eval; separate calls with the list of parameters"""
    m = len(params)
    ctx.check(isinstance(one, tuple) and len(one) == 3, kind + "structure")
    val, grad, hess = one
    ctx.check(isinstance(grad, (list, tuple)) and len(grad) == m,
              kind + "gradient structure", lambda: "%s" % (grad,))
    ctx.check(isinstance(hess, (list, tuple)) and len(hess) == m and
              all(isinstance(r, (list, tuple)) and len(r) == k + 1
                  for k, r in enumerate(hess)), kind + "hessian structure")
    same(ctx, val, ctx.call("call", f, params), (0, 0, n, d), kind + "value")
    gs = ctx.call("grad", f.grad, params)
    ctx.check(len(gs) == m, kind + "separate gradient structure")
    hs = ctx.call("hess", f.hess, params)
    ctx.check([len(r) for r in hs] == list(range(1, m + 1)),
              kind + "separate hessian structure")
    for i in range(m):
        p = np.ndim(params[i])
        same(ctx, grad[i], gs[i], (p, 0, n, d), kind + "gradient")
        same(ctx, grad[i], ctx.call("grad", f.grad, params, i), (p, 0, n, d),
             kind + "gradient i")
        for j in range(i + 1):
            q = np.ndim(params[j])
            same(ctx, hess[i][j], hs[i][j], (p, q, n, d), kind + "hessian")
            same(ctx, hess[i][j], ctx.call("hess", f.hess, params, i, j),
                 (p, q, n, d), kind + "hessian ij")


def container(ctx, params):
    """the same parameters in another container"""
    kinds = ["list", "tuple", "param", "mixed"]
    if len(params) == 1:
        kinds += ["single", "single", "single param"]
        if np.ndim(params[0]) == 0:
            kinds += ["float"]
    kind = ctx.choice(kinds)

    def param(p):
        free = ctx.rng.random(np.shape(p)) < .7
        return ctx.call("Param", Param, p.copy(), free if np.ndim(p) else bool(free))
    if kind == "list":
        return kind, list(params)
    if kind == "tuple":
        return kind, tuple(params)
    if kind == "param":
        return kind, [param(p) for p in params]
    if kind == "mixed":
        return kind, tuple(param(p) if ctx.chance(.5) else p for p in params)
    if kind == "single":
        return kind, params[0]
    if kind == "single param":
        return kind, param(params[0])
    return kind, float(params[0])


def expressions(ctx):
    g, F, P, e, params = setup(ctx)
    one = ctx.call("eval", e.f.eval, params)
    compare(ctx, e.f, params, e.n, e.d, one)
    kind, c = container(ctx, params)
    ctx.note("container", kind)
    ctx.sig(kind)
    one = ctx.call("eval(%s)" % kind, e.f.eval, c)
    compare(ctx, e.f, params, e.n, e.d, one, kind + " ")
    # separate calls with the container
    same(ctx, ctx.call("call(%s)" % kind, e.f, c), one[0], (0, 0, e.n, e.d),
         kind + " call")
    gs = ctx.call("grad(%s)" % kind, e.f.grad, c)
    hs = ctx.call("hess(%s)" % kind, e.f.hess, c)
    for i in range(len(params)):
        p = np.ndim(params[i])
        same(ctx, gs[i], one[1][i], (p, 0, e.n, e.d), kind + " grad")
        for j in range(i + 1):
            same(ctx, hs[i][j], one[2][i][j], (p, np.ndim(params[j]), e.n, e.d),
                 kind + " hess")
            same(ctx, ctx.call("hess(%s)" % kind, e.f.hess, c, i, j), one[2][i][j],
                 (p, np.ndim(params[j]), e.n, e.d), kind + " hess ij")


def mixed(ctx):
    g, F, P, e, params = setup_mixed(ctx)
    compare(ctx, e.f, params, e.n, e.d, ctx.call("eval", e.f.eval, params))


def coupled(ctx):
    g, F, P, e, params = setup(ctx, depth=0, what="interactions", min_feat=2)
    compare(ctx, e.f, params, e.n, e.d, ctx.call("eval", e.f.eval, params))


def again(ctx):
    """one object at several points, in the same memory"""
    if ctx.chance(.5):
        e, params = leaf_expr(ctx)
        ctx.note(e.text); ctx.sig(e.text, [np.shape(p) for p in params])
        if e.text == "cm":
            raise Skip()
    else:
        g, F, P, e, params = setup(ctx, depth=ctx.randint(0, 2))
    for c, now in moved(ctx, params):
        # eval of the container, separate calls of copies, or the opposite
        a, b = (c, now) if ctx.chance(.5) else (now, c)
        compare(ctx, e.f, a, e.n, e.d, ctx.call("eval", e.f.eval, b), "again ")


def wide(ctx):
    g, F, P, e, params = setup(ctx, depth=0, what="wide")
    compare(ctx, e.f, params, e.n, e.d, ctx.call("eval", e.f.eval, params))


def leaves(ctx):
    e, params = leaf_expr(ctx)
    ctx.note(e.text, [np.shape(p) for p in params],
             [np.round(p, 3).tolist() for p in params])
    ctx.sig(e.text, [np.shape(p) for p in params])
    if e.text == "cm":
        t = Tensor(params[0], dim=2)
        one = ctx.call("eval", e.f.eval, [t])
        n, d = e.n, e.d
        same(ctx, one[0], ctx.call("call", e.f, [t]), (0, 0, n, d), "value")
        ctx.check(len(one[1]) == 1 and [len(r) for r in one[2]] == [1], "structure")
        same(ctx, one[1][0], ctx.call("grad", e.f.grad, [t], 0), (n + 2, 0, n, d),
             "gradient")
        same(ctx, one[2][0][0], ctx.call("hess", e.f.hess, [t], 0, 0),
             (n + 2, n + 2, n, d), "hessian")
        return
    compare(ctx, e.f, params, e.n, e.d, ctx.call("eval", e.f.eval, params))
    kind, c = container(ctx, params)
    ctx.note("container", kind)
    compare(ctx, e.f, params, e.n, e.d, ctx.call("eval(%s)" % kind, e.f.eval, c),
            kind + " ")


def tensors(ctx):
    """one tensor with extra dimensions as the argument, in several containers"""
    n, d = ctx.randint(0, 2), ctx.randint(0, 2)
    v = ctx.rng.uniform(.1, 2., [ctx.randint(1, 3) for _ in range(n + d)])
    F = {"x": (X(), lambda z: z), "exp": (Exp(), np.exp), "log": (Log(), np.log),
         "logistic": (Logistic(), expit), "arctan": (ArcTan(), np.arctan)}
    k = ctx.choice(list(F))
    f, fn = F[k]
    how = ctx.choice(["plain", "affine", "composition"])
    if how == "affine":
        f, fn = 3 - 2 * f, (lambda fn: lambda z: 3 - 2 * fn(z))(fn)
    elif how == "composition":
        f, fn = Compose(Exp(), f), (lambda fn: lambda z: np.exp(fn(z)))(fn)
    ctx.note(k, how, "tensor", v.shape, "extra axes", d)
    ctx.sig(k, how, v.shape, d)
    for c in (lambda t: [t], lambda t: (t,), lambda t: t):
        arg = c(Tensor(v, dim=d))
        one = ctx.call("eval", f.eval, arg)
        compare(ctx, f, [Tensor(v, dim=d)], n, d, one, "tensor ")
        for t in (one[0], ctx.call("call", f, arg)):
            judge(ctx, t, fn(v), (0, 0, n, d), "tensor value", exact_groups=True)
        own = fn(v + 1e-30j).imag / 1e-30
        G = np.zeros(v.shape * 2)
        for i in np.ndindex(*v.shape):
            G[i + i] = own[i]
        for t in (one[1][0], ctx.call("grad", f.grad, arg, 0)):
            judge(ctx, t, G, (n + d, 0, n, d), "tensor gradient")


WORKLOADS = [("again", again, 250, 4000), ("tensors", tensors, 300, 4000),
             ("coupled", coupled, 400, 6000), ("mixed", mixed, 200, 4000), ("wide", wide, 50, 800),
             ("expressions", expressions, 600, 12000), ("leaves", leaves, 1200, 16000)]
