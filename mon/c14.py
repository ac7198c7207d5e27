"""C14: Poisson and Skellam probabilities and derivatives."""
import numpy as np
from scipy import stats, special
from maxlike import skellam as sk
from .core import Skip, Violation

RULE = ("random rates (log-uniform 1e-6 .. 40, equal and very different pairs, integers, some up to 500, some of 1e-18 and 0), "
        "counts and differences of any sign (incl. far in the tails), tolerances 1e-3 .. 1e-12 "
        "and default, both directions; values and derivatives compared with sums of scipy "
        "probabilities over much larger windows. Distinct by arguments.")


def rate(ctx):
    kind = ctx.choice(["log", "log", "mid", "int"])
    if kind == "log":
        return float(np.exp(ctx.rng.uniform(np.log(1e-6 if ctx.chance(.2) else 1e-3), np.log(40))))
    if kind == "mid":
        return float(ctx.rng.uniform(.3, 6))
    return ctx.randint(1, 40)


def pmf(a, n):
    x = np.arange(n)
    return np.exp(special.xlogy(x, a) - special.gammaln(x + 1) - a)


def difference(a, b):
    """probabilities of Y - X = k, k = -W .. W, X ~ Poisson(a), Y ~ Poisson(b)"""
    W = int(max(a, b) + 14 * max(a, b) ** .5 + 40)
    p, q = pmf(a, W), pmf(b, W)
    return np.convolve(q, p[::-1]), W - 1      # index W - 1 is zero


def poisson(ctx):
    a = rate(ctx)
    if ctx.chance(.1):
        a = float(ctx.rng.uniform(40, 500))
    elif ctx.chance(.1):
        # next to nothing, and nothing at all
        a = ctx.choice([0, 0., float(10 ** ctx.rng.uniform(-18, -6))])
    n = ctx.choice([0, 1, 2, 5, ctx.randint(0, 60), int(a) + ctx.randint(0, 3)])
    ctx.note("a", a, "n", n)
    ctx.sig(round(a, 3), n)
    x = np.arange(n + 1)
    p = stats.poisson.pmf(x, a)
    d = np.where(x > 0, stats.poisson.pmf(x - 1, a), 0) - p
    v = ctx.call("poisson_vector", sk.poisson_vector, a, n + 1)
    v = np.asarray(v)
    ctx.check(v.shape == (2, n + 1), "vector shape", lambda: str(v.shape))
    ctx.close(v[0], p, "vector", rtol=1e-9, atol=1e-13 if a > 1e-3 else 1e-30)
    ctx.close(v[1], d, "vector derivative", rtol=1e-8, atol=1e-13 if a > 1e-3 else 1e-30)
    if n == 10 or ctx.chance(.1):
        v = np.asarray(ctx.call("poisson_vector", sk.poisson_vector, a))
        ctx.close(v[0], stats.poisson.pmf(np.arange(10), a), "default", rtol=1e-9,
                  atol=1e-13)
    c = np.asarray(ctx.call("poisson_cdf", sk.poisson_cdf, a, n))
    ctx.check(c.shape == (2,), "cdf shape")
    ctx.close(c, [stats.poisson.cdf(n, a), -p[n]], "cdf", rtol=1e-8, atol=1e-12)
    m = np.asarray(ctx.call("poisson_mid_cdf", sk.poisson_mid_cdf, a, n))
    ctx.check(m.shape == (2,), "mid cdf shape")
    low = stats.poisson.pmf(n - 1, a) if n > 0 else 0.
    ctx.close(m, [stats.poisson.cdf(n, a) - .5 * p[n], -.5 * (p[n] + low)], "mid cdf",
              rtol=1e-8, atol=1e-12)


def args(ctx):
    a, b = rate(ctx), rate(ctx)
    large = ctx.chance(.03)
    if large:
        a, b = (float(v) for v in ctx.rng.uniform(60, 600, 2))
    if ctx.chance(.15):
        b = a
    n = ctx.choice([0, 0, 1, -1, ctx.randint(-6, 6), ctx.randint(-6, 6),
                    int(b - a) + ctx.randint(-3, 3), ctx.randint(-70, 70)])
    if large and ctx.chance(.6):
        n = int(b - a) + ctx.randint(-50, 50)
    tol = ctx.choice([None, None, 1e-3, 1e-5, 1e-8, 1e-10, 1e-12])
    ctx.note("a", a, "b", b, "n", n, "tol", tol)
    ctx.sig(round(a, 3), round(b, 3), n, tol)
    return a, b, n, tol


def cell(P, zero, k):
    return float(P[zero + k]) if 0 <= zero + k < len(P) else 0.


def edge(a, b, tol):
    """
    probabilities at the edge of the smallest window that leaves out less than
    tol: derivatives of truncated sums miss as much
    """
    tol = tol or 1e-8
    size = 1
    while stats.poisson.sf(size - 1, a) + stats.poisson.sf(size - 1, b) > tol:
        size += 1
    return 2 * (stats.poisson.pmf(size - 1, a) + stats.poisson.pmf(size - 1, b))


def skellam_cdf(ctx):
    a, b, n, tol = args(ctx)
    P, zero = difference(a, b)
    k = np.arange(len(P)) - zero
    atol = 10 * (tol or 1e-8) + 1e-12
    datol = atol + edge(a, b, tol)
    for inverse in (False, True):
        kw = {} if tol is None else {"tol": tol}
        if inverse:
            kw["inverse"] = True
        elif ctx.chance(.5):
            kw["inverse"] = False
        if n == 0 and ctx.chance(.5):
            v = ctx.call("skellam_cdf", sk.skellam_cdf, a, b, **kw)
        else:
            v = ctx.call("skellam_cdf", sk.skellam_cdf, a, b, n, **kw)
        v = np.asarray(v, dtype=float)
        if inverse:
            want = [P[k >= n].sum(), -cell(P, zero, n), cell(P, zero, n - 1)]
        else:
            want = [P[k <= n].sum(), cell(P, zero, n + 1), -cell(P, zero, n)]
        kind = "at least" if inverse else "at most"
        ctx.check(v.shape == (3,), kind + " shape", lambda: str(v.shape))
        ctx.close(v[0], want[0], kind, rtol=0, atol=atol)
        ctx.close(v[1:], want[1:], kind + " derivatives", rtol=0, atol=datol)


def pair(ctx):
    a, b, n, tol = args(ctx)
    P, zero = difference(a, b)
    k = np.arange(len(P)) - zero
    atol = 10 * (tol or 1e-8) + 1e-12
    datol = atol + edge(a, b, tol)
    v = ctx.call("pair", sk.skellam_cdf_pair, a, b, n, **({} if tol is None else
                                                         {"tol": tol}))
    v = np.asarray(v, dtype=float)
    want = np.array([[P[k < n].sum(), cell(P, zero, n), -cell(P, zero, n - 1)],
                     [P[k > n].sum(), -cell(P, zero, n + 1), cell(P, zero, n)]])
    ctx.check(v.shape == (2, 3), "pair shape", lambda: str(v.shape))
    ctx.close(v[:, 0], want[:, 0], "pair", rtol=0, atol=atol)
    ctx.close(v[:, 1:], want[:, 1:], "pair derivatives", rtol=0, atol=datol)
    # the probabilities and the one left out
    ctx.close(v[:, 0].sum() + cell(P, zero, n), 1., "pair total", rtol=0, atol=2 * atol)
    # derivatives with differences of the values themselves
    h = 1e-4 * min(a, b, 1)
    if tol in (None, 1e-10, 1e-12) and min(a, b) > .3:
        for i in (0, 1):
            s = [np.asarray(sk.skellam_cdf_pair(a + c * h * (i == 0), b + c * h * (i == 1),
                                                n, 1e-13))[:, 0] for c in (1, -1)]
            ctx.close(v[:, 1 + i], (s[0] - s[1]) / (2 * h), "pair slope", rtol=0,
                      atol=1e-5 + datol)


def frame(ctx):
    a, b = rate(ctx), rate(ctx)
    size = ctx.choice([1, 2, 5, 10, 25, ctx.randint(26, 150)])
    f = ctx.call("frame", sk.skellam_frame, a, b, size)
    ctx.note("frame", a, b, size)
    ctx.sig(round(a, 3), round(b, 3), size)
    p, q = pmf(a, size), pmf(b, size)
    dp = np.append(0, p[:-1]) - p
    dq = np.append(0, q[:-1]) - q
    ctx.check(len(f) == 3, "frame parts")
    for got, want in zip(f, (np.outer(p, q), np.outer(dp, q), np.outer(p, dq))):
        ctx.close(got, want, "frame", rtol=1e-8, atol=1e-13)
    # the window holds the mass it promises
    tol = 10. ** -ctx.randint(2, 12)
    size = ctx.call("tol2size", sk.tol2size, tol, a, b)
    out = stats.poisson.sf(size - 1, a) + stats.poisson.sf(size - 1, b)
    ctx.check(out <= 10 * tol, "window", lambda: "%s left out of %s at %s" % (out, size, tol))


WORKLOADS = [("poisson", poisson, 2000, 40000), ("skellam_cdf", skellam_cdf, 1500, 30000),
             ("pair", pair, 1500, 30000), ("frame", frame, 800, 12000)]
