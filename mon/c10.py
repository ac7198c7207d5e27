"""C10: Markov score models vs the chain, conservation."""
import numpy as np
from maxlike.func import MarkovMatrix, MarkovVector
from maxlike.tensor import Tensor
from .core import Skip, Violation
from .dense import *
from .exprs import *

RULE = ("random arrays of rates (0-3 axes, incl. rates near the bound rate1 + rate2 = steps "
        "and near zero), sizes, step counts and skew tables; probabilities compared with "
        "the chain run step by step, totals, signs, derivatives that conserve probability. "
        "Distinct by shapes and model.")


def valid(ctx, cap):
    n = ctx.randint(0, 3)
    F = [ctx.randint(1, 4) for _ in range(n)]
    if n and ctx.chance(.08):
        F = [ctx.randint(8, 40)]
        n = 1
    kind = ctx.choice(["mid", "mid", "small", "edge", "uneven"])
    if kind == "mid":
        a, b = ctx.rng.uniform(min(.1, cap * .1), ctx.choice([min(3., cap * .45), cap * .49]),
                               (2,) + tuple(F))
    elif kind == "small":
        a, b = 10 ** ctx.rng.uniform(-6, -1, (2,) + tuple(F))
    elif kind == "edge":
        u = ctx.rng.uniform(.02, .98, F)
        w = cap * ctx.rng.uniform(.95, .9999, F)
        a, b = u * w, (1 - u) * w
    else:
        a = ctx.rng.uniform(.5, .9, F) * cap
        b = ctx.rng.uniform(.001, .05, F) * cap
    if ctx.chance(.12) and kind in ("mid", "small"):
        b = a.copy()        # equal sides
    ctx.note("rates", a.shape, kind, np.round(a, 4).tolist(), np.round(b, 4).tolist())
    ctx.sig(a.shape, kind)
    how = ctx.choice(["array", "tensor", "float"])
    if how == "tensor":
        return a, b, [Tensor(a), Tensor(b)]
    if how == "float" and n == 0:
        return a, b, [float(a), float(b)]
    return a, b, (a, b)


def model(ctx, vector):
    steps = ctx.choice([1, 2, 3, 5, 8, 13, 18])
    size = ctx.choice([1, 2, 3, 4, 6, 8])
    if ctx.chance(.05):
        size, steps = 8, 18
    elif size * steps > 80:
        size = 4
    shape = (2 * size - 1,) if vector else (size, size)
    kind = ctx.choice(["none", "less", "mixed", "sharp", "wild"])
    sk = None if kind == "none" else ctx.rng.uniform(.2, 1., shape) if kind == "less" else \
        ctx.rng.uniform(.6, 1.3, shape) if kind == "mixed" else \
        np.exp(ctx.rng.uniform(-3, 3, shape)) if kind == "wild" else \
        ctx.rng.choice([0., .5, 1.], shape)
    ctx.note("size", size, "steps", steps, "skew",
             None if sk is None else np.round(sk, 3).tolist())
    ctx.sig(size, steps, kind)
    cap = steps / max(1., 1. if sk is None else float(sk.max()))
    f = (MarkovVector if vector else MarkovMatrix)
    if sk is None:
        f = f(size, steps) if ctx.chance(.7) else f(size=size, steps=steps)
    else:
        f = f(size, steps, sk)
    return f, size, steps, sk, cap


def distribution(ctx, f, args, want, nd, kind):
    t = ctx.call(kind, f, args)
    n = want.ndim - nd
    for t in (t, ctx.call(kind + "-eval", f.eval, args)[0]):
        ctx.check(groups(t) == (0, 0, n, nd), kind + " groups", lambda: str(groups(t)))
        v = dense_of(t)
        ax = tuple(range(n, n + nd))
        ctx.close(v, want, kind, rtol=1e-9, atol=1e-15)
        ctx.check(np.all(v >= -1e-12), kind + " non-negative", lambda: str(v.min()))
        ctx.close(v.sum(ax), np.ones(want.shape[:n]), kind + " total", rtol=1e-9)
        ctx.event("cells", v.size)
    return v


def conserve(ctx, f, args, a, b, ref, nd, kind):
    ax = tuple(range(-nd, 0))
    val, gs, hs = ctx.call(kind + "-eval", f.eval, args)
    # each cell depends on its own pair of rates
    for k, g in enumerate(gs):
        z = [a + 0j, b + 0j]
        z[k] = z[k] + 1e-30j
        own = ref(z[0], z[1]).imag / 1e-30
        d = dense_of(g)
        n = a.ndim
        idx = np.indices(a.shape)
        ctx.close(d[tuple(idx) + tuple(idx)], own, kind + " derivative", rtol=1e-8,
                  atol=1e-10)
    for g in list(gs) + [ctx.call("grad", f.grad, args, k) for k in (0, 1)]:
        d = dense_of(g)
        ctx.check(d.shape[:a.ndim] == a.shape, kind + " grad shape")
        ctx.close(d.sum(ax), np.zeros(d.shape[:-nd]), kind + " grad total", atol=1e-8)
    for row in hs:
        for h in row:
            d = dense_of(h)
            ctx.close(d.sum(ax), np.zeros(d.shape[:-nd]), kind + " hess total", atol=1e-7)
    for i, j in ((0, 0), (1, 0), (1, 1)):
        d = dense_of(ctx.call("hess", f.hess, args, i, j))
        ctx.close(d.sum(ax), np.zeros(d.shape[:-nd]), kind + " hess total", atol=1e-7)


def matrix(ctx):
    f, size, steps, sk, cap = model(ctx, False)
    a, b, args = valid(ctx, cap)
    want = ref_markov(a, b, size, steps, sk)
    distribution(ctx, f, args, want, 2, "matrix")
    if a.ndim <= 2 and ctx.chance(.4):
        conserve(ctx, f, args, a, b,
                 lambda x, y: ref_markov(x, y, size, steps, sk), 2, "matrix")


def vector(ctx):
    f, size, steps, sk, cap = model(ctx, True)
    a, b, args = valid(ctx, cap)
    want = ref_markov_vector(a, b, size, steps, sk)
    distribution(ctx, f, args, want, 1, "vector")
    if a.ndim <= 2 and ctx.chance(.4):
        conserve(ctx, f, args, a, b,
                 lambda x, y: ref_markov_vector(x, y, size, steps, sk), 1, "vector")


def difference(ctx):
    """without absorption both models describe the same difference"""
    steps = ctx.randint(1, 6)
    size = steps + ctx.randint(1, 3)
    a, b, args = valid(ctx, steps)
    ctx.note("steps", steps, "size", size)
    m = dense_of(ctx.call("matrix", MarkovMatrix(size, steps), args))
    v = dense_of(ctx.call("vector", MarkovVector(size, steps), args))
    want = np.stack([np.trace(m, -k, -2, -1) for k in range(1 - size, size)], -1)
    ctx.close(v, want, "difference", rtol=1e-9, atol=1e-12)
    # and both sides can be exchanged
    w = dense_of(ctx.call("vector", MarkovVector(size, steps), [args[1], args[0]]))
    ctx.close(w, v[..., ::-1], "exchange", rtol=1e-9, atol=1e-12)
    u = dense_of(ctx.call("matrix", MarkovMatrix(size, steps), [args[1], args[0]]))
    ctx.close(u, np.swapaxes(m, -1, -2), "exchange", rtol=1e-9, atol=1e-12)
    # binomial margins: each side alone
    from scipy.stats import binom
    k = np.arange(size)
    ctx.close(m.sum(-1), binom.pmf(k, steps, a[..., None] / steps), "margin", rtol=1e-8,
              atol=1e-12)
    ctx.close(m.sum(-2), binom.pmf(k, steps, b[..., None] / steps), "margin", rtol=1e-8,
              atol=1e-12)


def history(ctx):
    """one model object, several calls with arrays of different shapes"""
    vec = ctx.chance(.5)
    f, size, steps, sk, cap = model(ctx, vec)
    ref = ref_markov_vector if vec else ref_markov
    for _ in range(4):
        a, b, args = valid(ctx, cap)
        want = ref(a, b, size, steps, sk)
        if ctx.chance(.3):
            f.grad(args, 0)
        ctx.close(dense_of(ctx.call("call", f, args)), want, "history", rtol=1e-9,
                  atol=1e-12)
    # other rates, also in the same memory
    nd = 1 if vec else 2
    for c, (a, b) in moved(ctx, [a, b]):
        want = ref(a, b, size, steps, sk)
        ctx.close(dense_of(ctx.call("call", f, c)), want, "again", rtol=1e-9, atol=1e-12)
        if a.ndim < 3 and ctx.chance(.4):
            conserve(ctx, f, c, a, b, lambda x, y: ref(x, y, size, steps, sk), nd, "again")
        val = ctx.call("eval", f.eval, c)[0]
        ctx.close(dense_of(val), want, "again", rtol=1e-9, atol=1e-12)


def large(ctx):
    """many scores, many steps, many axes"""
    vec = ctx.chance(.5)
    if vec:
        size, steps = ctx.randint(9, 40), ctx.randint(20, 150)
    else:
        size, steps = ctx.randint(9, 16), ctx.randint(10, 60)
        if ctx.chance(.3):
            size, steps = ctx.randint(2, 4), ctx.randint(60, 150)
    big = not vec and ctx.chance(.2)
    if big:
        size, steps = ctx.randint(20, 36), ctx.randint(40, 70)
    shape = (2 * size - 1,) if vec else (size, size)
    sk = ctx.rng.uniform(.2, 1.2, shape) if ctx.chance(.6) else None
    cap = steps / max(1., 1. if sk is None else float(sk.max()))
    F = [ctx.choice([1, 2]) for _ in range(ctx.choice([0, 0, 1, 4, 5]) * (not big))]
    hi = min(cap * .49, 1e3 if big else ctx.choice([3., 1e3]))
    a, b = ctx.rng.uniform(.05 * hi, hi, (2,) + tuple(F))
    ctx.note("size", size, "steps", steps, "rates", F, hi)
    ctx.sig(size, steps, vec, tuple(F))
    f = (MarkovVector if vec else MarkovMatrix)(size, steps, sk)
    ref = ref_markov_vector if vec else ref_markov
    kind = "vector" if vec else "matrix"
    want = ref(a, b, size, steps, sk)
    t = ctx.call(kind, f, (a, b))
    nd = 1 if vec else 2
    ctx.check(groups(t) == (0, 0, len(F), nd), kind + " groups", lambda: str(groups(t)))
    ctx.close(dense_of(t), want, kind, rtol=1e-9, atol=1e-15)
    ctx.close(dense_of(t).sum(tuple(range(-nd, 0))), np.ones(F), kind + " total", rtol=1e-9)
    if ctx.chance(1. if vec or size < 5 else 0 if big else .25) and len(F) < 3:
        distribution(ctx, f, (a, b), want, nd, kind)
        conserve(ctx, f, (a, b), a, b, lambda x, y: ref(x, y, size, steps, sk), nd, kind)


WORKLOADS = [("large", large, 50, 700), ("matrix", matrix, 500, 9000), ("vector", vector, 600, 10000),
             ("difference", difference, 300, 6000), ("history", history, 150, 2000)]
