"""C12: outcome collapse of joint score tables."""
import numpy as np
from maxlike.func import CollapseMatrix
from maxlike.tensor import Tensor
from .core import Skip, Violation
from .dense import *

RULE = ("random tables (0-3 feature axes, 1-6 x 1-6, sometimes up to 400 scores), default and random conditions "
        "(integer, fractional, equal, contradictory, a single tuple), tables given as arrays or "
        "tensors; values summed cell by cell in Python, gradients compared with the linear map. "
        "Distinct by shape and conditions.")


def conditions(ctx):
    kind = ctx.choice(["default", "single", "list", "list", "frac", "tuple of lists"])
    num = (lambda: float(ctx.choice([-1.5, -.5, 0, .5, 1, 2.5]))) if kind == "frac" else \
        (lambda: ctx.randint(-3, 3))
    if kind == "list" and ctx.chance(.25):
        # coefficients with a small difference, all of them exact
        e = 2. ** -ctx.randint(8, 24)
        num = lambda: ctx.randint(-2, 2) + e * ctx.choice([-1, 0, 0, 1])
    one = lambda: (num(), num(), num(), ctx.choice([-1, 0, 1]))
    if kind == "default":
        return None, [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)]
    if kind == "single":
        c = one()
        return (list(c) if ctx.chance(.3) else c), [c]
    c = [one() for _ in range(ctx.randint(1, 5) if ctx.chance(.9) else ctx.randint(6, 14))]
    if ctx.chance(.2):
        c.append(c[0])
    return (tuple(list(x) for x in c) if kind == "tuple of lists" else c), c


def sign(z):
    return (z > 0) - (z < 0)


def table(ctx):
    n = ctx.randint(0, 3)
    if ctx.chance(.06):
        n = ctx.randint(4, 5)
    F = [ctx.randint(1, 4 if n < 4 else 2) for _ in range(n)]
    s = [ctx.randint(1, 6 if n < 4 else 3), ctx.randint(1, 6 if n < 4 else 3)]
    if ctx.chance(.08):
        s = [ctx.randint(5, 40), ctx.randint(5, 40)]
        if ctx.chance(.4):
            s[ctx.randint(0, 1)] = ctx.randint(120, 400)
    elif n and ctx.chance(.05):
        F[0] = ctx.randint(10, 70)
    t = ctx.rng.uniform(0, 1, F + s)
    if ctx.chance(.2):
        t = ctx.rng.normal(size=F + s)
    if ctx.chance(.2):
        t = ctx.rng.integers(0, 9, F + s)
    return t, n


def reference(t, cond):
    out = np.zeros(t.shape[:-2] + (len(cond),))
    for k, (a, b, c, s) in enumerate(cond):
        for i in range(t.shape[-2]):
            for j in range(t.shape[-1]):
                if sign(a * i + b * j + c) == s:
                    out[..., k] += t[..., i, j]
    return out


def values(ctx):
    given, cond = conditions(ctx)
    f = CollapseMatrix(given) if given is not None or ctx.chance(.5) else CollapseMatrix()
    for _ in range(ctx.randint(1, 3)):      # the same object on several tables
        t, n = table(ctx)
        ctx.note("table", t.shape, "conditions", given)
        ctx.sig(t.shape, str(given))
        arg = ctx.choice([[t], [Tensor(t, dim=2)], Tensor(t, dim=2), t])
        want = reference(t, cond)
        v = ctx.call("call", f, arg)
        ctx.check(groups(v) == (0, 0, n, 1), "groups", lambda: str(groups(v)))
        ctx.close(dense_of(v), want, "value", rtol=1e-11, atol=1e-11)
        e = ctx.call("eval", f.eval, arg)
        ctx.close(dense_of(e[0]), want, "eval value", rtol=1e-11, atol=1e-11)
        if t.size > 300:
            continue
        # linear map: entry (i, j) of the own cell counts once per condition
        m = n + 2
        G = np.zeros(t.shape + want.shape)
        for idx in np.ndindex(*t.shape):
            for k, (a, b, c, s) in enumerate(cond):
                if sign(a * idx[-2] + b * idx[-1] + c) == s:
                    G[idx + idx[:-2] + (k,)] = 1
        for kind, g in (("gradient", ctx.call("grad", f.grad, arg, 0)),
                        ("eval gradient", e[1][0])):
            judge(ctx, g, G, (m, 0, n, 1), kind)
        for kind, h in (("hessian", ctx.call("hess", f.hess, arg, 0, 0)),
                        ("eval hessian", e[2][0][0])):
            ctx.check(isinstance(h, BaseTensor) and np.all(dense_of(h) == 0), kind)


def partition(ctx):
    """complementary conditions give back the total"""
    a, b, c = ctx.randint(-3, 3), ctx.randint(-3, 3), ctx.randint(-4, 4)
    t, n = table(ctx)
    f = CollapseMatrix([(a, b, c, s) for s in ctx.choice([(1, 0, -1), (-1, 0, 1)])])
    ctx.note(a, b, c, t.shape)
    ctx.sig(a, b, c, t.shape)
    v = dense_of(ctx.call("call", f, [t]))
    ctx.close(v.sum(-1), t.sum((-1, -2)), "partition", rtol=1e-10, atol=1e-10)
    # linear
    u = ctx.rng.uniform(-1, 1, t.shape)
    w = dense_of(f([2 * t - 3 * u]))
    ctx.close(w, 2 * v - 3 * dense_of(f([u])), "linear", rtol=1e-9, atol=1e-9)


WORKLOADS = [("values", values, 1500, 25000), ("partition", partition, 500, 8000)]
