"""C09: count functions vs probability mass functions of scipy."""
import numpy as np
from scipy import stats, special
from maxlike.func import Poisson, LogNegativeBinomial, NegativeBinomial, Exp
from maxlike.tensor import Tensor
from .dense import dense_of, groups
from .exprs import moved
from .core import Skip

RULE = ("random rate arrays (0-3 axes, 1e-6 .. 50, for Poisson also 1e-20 and 0), ranges of counts (1 .. 40) and size "
        "parameters, given as numbers, arrays or tensors; every entry compared with scipy's "
        "pmf. Distinct by shape, size, dispersion and container.")


def rates(ctx, zero=False):
    n = ctx.randint(0, 3)
    F = [ctx.randint(1, 5) for _ in range(n)]
    if n and ctx.chance(.1):
        F = F[:1] + [ctx.randint(10, 60)] * (n > 1)
        F[0] = ctx.randint(10, 60)
    kind = ctx.choice(["mid", "wide", "small", "int"] + ["tiny", "none"] * zero)
    m = {"mid": lambda: ctx.rng.uniform(.1, 5, F),
         "wide": lambda: np.exp(ctx.rng.uniform(np.log(1e-6), np.log(50), F)),
         "small": lambda: 10 ** ctx.rng.uniform(-6, -2, F),
         "int": lambda: ctx.rng.integers(1, 9, F),
         "tiny": lambda: 10 ** ctx.rng.uniform(-20, -6, F),
         "none": lambda: ctx.rng.uniform(0, 3, F) * ctx.rng.integers(0, 2, F)}[kind]()
    m = np.asarray(m)
    how = ctx.choice(["array", "array", "tensor", "list"] + (["float"] if n == 0 else []))
    ctx.note("rates", m.shape, kind, how, np.round(m, 6).tolist())
    ctx.sig(m.shape, kind, how)
    arg = {"array": m, "tensor": Tensor(m), "list": [m],
           "float": float(m) if n == 0 else None}[how]
    return m, arg


def result(ctx, f, arg, m, size, kind):
    t = ctx.call(kind, f, arg)
    ctx.check(groups(t) == (0, 0, m.ndim, 1), kind + " groups", lambda: str(groups(t)))
    v = dense_of(t)
    ctx.check(v.shape == m.shape + (size,), kind + " shape", lambda: str(v.shape))
    ctx.event("cells", v.size)
    return v


def poisson(ctx):
    m, arg = rates(ctx, zero=True)
    size = ctx.choice([1, 2, 5, 10, 25, 40, 150])
    f = Poisson(size) if size != 10 or ctx.chance(.5) else Poisson()
    ctx.sig(size)
    want = stats.poisson.pmf(np.arange(size), m[..., None].astype(float))
    for v in (result(ctx, f, arg, m, size, "Poisson"),
              dense_of(ctx.call("eval", f.eval, arg)[0])):
        ctx.close(v * np.exp(-m[..., None].astype(float)), want, "Poisson", rtol=1e-10,
                  atol=1e-300)


def negbin(ctx):
    m, arg = rates(ctx)
    size = ctx.choice([1, 2, 5, 10, 25, 40, 150])
    r = ctx.choice([1, 1., 2, .5, .01, 7.3, 200., float(ctx.rng.uniform(.05, 20))])
    ctx.note("size", size, "r", r)
    ctx.sig(size, r)
    args = ctx.choice(["pos", "kw"])
    make = lambda F: F(size, r) if args == "pos" else F(r=r, size=size)
    x = np.arange(size)
    mm = m[..., None].astype(float)
    want = stats.nbinom.logpmf(x, r, r / (r + mm))
    # an independent expression of the same, for the precision of small rates
    want2 = special.gammaln(r + x) - special.gammaln(r) - special.gammaln(x + 1) + \
        x * (np.log(mm) - np.log(r + mm)) - r * np.log1p(mm / r)
    tol = 1e-9 * (1 + np.abs(x) + r)
    f = make(LogNegativeBinomial)
    ok = np.abs(want - want2) < tol
    ctx.check(ok.mean() > .5, "references agree")
    for v in (result(ctx, f, arg, m, size, "LogNB"),
              dense_of(ctx.call("eval", f.eval, arg)[0])):
        ctx.check(np.all(np.abs(v - want2) < tol), "log pmf",
                  lambda: "%s instead of %s" % (v, want2))
    f = make(NegativeBinomial)
    for v in (result(ctx, f, arg, m, size, "NB"),
              dense_of(ctx.call("eval", f.eval, arg)[0])):
        ctx.check(np.all(np.abs(v - np.exp(want2)) < tol), "pmf",
                  lambda: "%s instead of %s" % (v, np.exp(want2)))
        ctx.check(np.all(v >= 0) and np.all(v.sum(-1) <= 1 + 1e-9), "mass",
                  lambda: "%s" % v.sum(-1))


def totals(ctx):
    """the probabilities of a large enough range add up to one"""
    m, arg = rates(ctx)
    if np.any(m > 6):
        raise Skip()
    v = dense_of(ctx.call("Poisson", Poisson(60), arg))
    ctx.close((v * np.exp(-m[..., None].astype(float))).sum(-1), np.ones(m.shape),
              "Poisson total", rtol=1e-9)
    x = np.arange(60)
    ctx.close((v * np.exp(-m[..., None].astype(float)) * x).sum(-1), m, "Poisson mean",
              rtol=1e-9)
    if np.all(m < 3):
        v = dense_of(ctx.call("NB", NegativeBinomial(150, 2.), arg))
        ctx.close(v.sum(-1), np.ones(m.shape), "NB total", rtol=1e-8)
        ctx.close((v * np.arange(150)).sum(-1), m, "NB mean", rtol=1e-6)


def again(ctx):
    """one object, rates that change in the same memory or in the same list"""
    m, _ = rates(ctx)
    size, r = ctx.choice([1, 3, 10]), float(ctx.rng.uniform(.3, 9))
    f = {"Poisson": Poisson(size), "LogNB": LogNegativeBinomial(size, r),
         "NB": NegativeBinomial(size, r)}
    kind = ctx.choice(list(f))
    ctx.note(kind, size, r)
    ctx.sig(kind)
    f = f[kind]
    for c, (w,) in moved(ctx, [m]):
        x, w = np.arange(size), w[..., None]
        want = stats.poisson.pmf(x, w) * np.exp(w) if kind == "Poisson" else \
            stats.nbinom.logpmf(x, r, r / (r + w))
        if kind == "NB":
            want = np.exp(want)
        got = [ctx.call(kind, f, c), ctx.call(kind, f.eval, c)[0]]
        if m.ndim and ctx.chance(.5):
            got.append(ctx.call(kind, f, c[0]))
        for t in got:
            ctx.close(dense_of(t), want, kind + " again", rtol=1e-7, atol=1e-300)
        if ctx.chance(.3):
            ctx.call("grad", f.grad, c, 0)


WORKLOADS = [("again", again, 300, 5000), ("poisson", poisson, 1200, 30000), ("negbin", negbin, 1600, 40000),
             ("totals", totals, 400, 8000)]
