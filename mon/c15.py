"""C15: root finders of the Poisson and Skellam distributions."""
import os, sys
import numpy as np
from scipy import stats
from maxlike import skellam as sk
from maxlike.maxlike_base import ConvergenceError
from .core import Skip, Violation
from .c14 import difference, cell

RULE = ("targets built from true rates (log-uniform .03 .. 30), free targets in the open "
        "simplex (incl. near its edges), boundary, infeasible and unattainable targets, n, "
        "tolerances 1e-4 .. 1e-12; the returned rates are put into the library's cdfs and "
        "into independent sums, while counters on the lines executed inside skellam.py and "
        "on the windows it allocates bound the work. Distinct by arguments.")
ASSUMPTIONS = ["attainable targets that have to be solved: probabilities (and what the two "
               "targets leave) of at least 0.02, rates below 20, |n| <= 4; tolerance >= 1e-10"]

MAX_LINES = 300000
MAX_CELLS = 20000 ** 2


class Budget(BaseException):
    pass


FILE = sk.poisson_vector.__code__.co_filename


def watched(ctx, fn, *args, **kw):
    """
    Calls fn and counts the lines it executes in skellam.py and the sizes of
    the windows it asks for. Returns (value or None, exception or None).
    """
    seen = dict(lines=0, size=0, calls=0)

    def local(frame, event, arg):
        if event == "line":
            seen["lines"] += 1
            if seen["lines"] > MAX_LINES:
                raise Budget("lines")
        return local

    def tracer(frame, event, arg):
        if event == "call" and frame.f_code.co_filename == FILE:
            return local
        return None

    inner = sk.poisson_vector

    def spy(*args, **kw):
        seen["calls"] += 1
        size = kw.get("size", args[1] if len(args) > 1 else 0)
        if isinstance(size, (int, float, np.number)):
            seen["size"] = max(seen["size"], size)
            if size > 100000:
                raise Budget("window of %s" % size)
        return inner(*args, **kw)

    sk.poisson_vector = spy
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        try:
            v = fn(*args, **kw)
            err = None
        except Budget as e:
            raise Violation("unbounded work", "%s: %s" % (e, seen))
        except MemoryError as e:
            v, err = None, e
        except Exception as e:
            v, err = None, e
    finally:
        sys.settrace(old)
        sk.poisson_vector = inner
    ctx.event("lines", seen["lines"])
    ctx.event("windows", seen["calls"])
    ctx.event("raised" if err is not None else "returned")
    ctx.check(True, "bounded work")
    return v, err


def tolerance(ctx):
    tol = ctx.choice([None, None, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12])
    return tol, ({} if tol is None else {"tol": tol}), (tol or 1e-8)


def good(ctx, v, kind):
    v = np.asarray(v, dtype=float)
    ctx.check(np.all(np.isfinite(v)) and np.all(v > 0), kind + " finite and positive",
              lambda: str(v))
    return v


def refused(ctx, v, err, kind):
    ctx.check(err is not None, kind + " refused", lambda: "returned %r" % (v,))


def poisson(ctx):
    tol, kw, t = tolerance(ctx)
    n = ctx.choice([0, 1, 2, 3, ctx.randint(0, 12), ctx.randint(0, 40)])
    if ctx.chance(.08):
        n = ctx.randint(40, 400)
    kind = ctx.choice(["free", "free", "rate", "extreme", "bad"])
    if kind == "bad":
        target = ctx.choice([0., 1., -.1, 1.5, 0, 1, 2, -3., float("inf")])
    elif kind == "rate":
        target = float(stats.poisson.cdf(n, np.exp(ctx.rng.uniform(-4, 4)) if n < 40 else
                                         n * ctx.rng.uniform(.85, 1.15)))
    elif kind == "extreme":
        target = 10 ** -ctx.rng.uniform(4, 12)
        target = 1 - target if ctx.chance(.5) else target
    else:
        target = float(ctx.rng.uniform(1e-3, 1 - 1e-3))
    ctx.note("poisson", kind, repr(target), "n", n, tol)
    ctx.sig(kind, round(target, 4) if np.isfinite(target) else target, n, tol)
    if n == 2 and ctx.chance(.5):
        a, err = watched(ctx, sk.poisson_cdf_root, target, **kw)
    else:
        a, err = watched(ctx, sk.poisson_cdf_root, target, n, **kw)
    if kind == "bad" or not 0 < target < 1:
        return refused(ctx, a, err, "poisson")
    if 1e-4 <= target <= 1 - 1e-4 and t >= 1e-10:
        ctx.check(err is None, "poisson solved", lambda: repr(err))
    if err is None:
        a = good(ctx, a, "poisson")
        ctx.check(a.shape == (), "poisson scalar")
        ctx.close(sk.poisson_cdf(float(a), n)[0], target, "poisson root", rtol=0,
                  atol=t * (1 + 1e-6) + 1e-14)
        ctx.close(stats.poisson.cdf(n, a), target, "poisson reference", rtol=0,
                  atol=2 * t + 1e-12)


def skellam(ctx):
    tol, kw, t = tolerance(ctx)
    kind = ctx.choice(["rates", "rates", "rates", "free", "extreme", "bad"])
    n = ctx.choice([0, 0, 1, -1, ctx.randint(-4, 4)])
    must = False
    if kind == "rates":
        a, b = np.exp(ctx.rng.uniform(np.log(.03), np.log(20), 2))
        if ctx.chance(.08):
            a = b
        if ctx.chance(.05):
            a = float(ctx.rng.uniform(20, 120))
            b = a * ctx.rng.uniform(.7, 1.4)
            n = int(b - a) + ctx.randint(-4, 4)
        P, zero = difference(a, b)
        k = np.arange(len(P)) - zero
        t1, t2 = float(P[k < n].sum()), float(P[k > n].sum())
        if t1 <= 0 or t2 <= 0 or t1 + t2 >= 1:
            raise Skip()
        must = min(t1, t2, 1 - t1 - t2) >= .02 and max(a, b, abs(n) * 5) <= 20
        ctx.note("from", a, b)
    elif kind == "free":
        left = ctx.rng.uniform(.01, .95)
        t1 = float((1 - left) * ctx.rng.uniform(.01, .99))
        t2 = float(1 - left - t1)
        if ctx.chance(.2):
            t1 = t2 = .5 * (t1 + t2)
        must = n == 0 and left >= .02 and min(t1, t2) >= 2e-4
    elif kind == "extreme":
        e = [10 ** -ctx.rng.uniform(3, 9) for _ in range(2)]
        t1, t2 = ctx.choice([(e[0], e[1]), (e[0], .5), (.5, e[0]), (e[0], 1 - 1.5 * e[0] - .02),
                             (.9, e[0]), (e[0], .9)])
    else:
        t1, t2 = ctx.choice([(.5, .5), (.7, .4), (0., .5), (.5, 0.), (-.1, .5), (.3, -.2),
                             (1., .1), (.1, 1.), (0., 0.), (1., 0.), (2., -1.5), (.25, .75),
                             (float("inf"), .1)])
    if kind in ("free", "extreme"):
        left = 1 - t1 - t2
        if left < 9e-3:
            raise Skip()    # needs windows of thousands of goals
    ctx.note("skellam", kind, repr(t1), repr(t2), "n", n, tol)
    ctx.sig(kind, round(t1, 4), round(t2, 4), n, tol)
    if n == 0 and ctx.chance(.5):
        v, err = watched(ctx, sk.skellam_cdf_root, t1, t2, **kw)
    else:
        v, err = watched(ctx, sk.skellam_cdf_root, t1, t2, n, **kw)
    if kind == "bad":
        return refused(ctx, v, err, "skellam")
    if must and t >= 1e-10:
        ctx.check(err is None, "skellam solved", lambda: repr(err))
    if err is None:
        v = good(ctx, v, "skellam")
        ctx.check(v.shape == (2,), "skellam pair")
        p = sk.skellam_cdf_pair(float(v[0]), float(v[1]), n, t)[:, 0]
        ctx.check(np.linalg.norm(p - (t1, t2)) <= t * (1 + 1e-6) + 1e-14, "skellam root",
                  lambda: "%s gives %s" % (v, p))
        P, zero = difference(*v)
        k = np.arange(len(P)) - zero
        ctx.close([P[k < n].sum(), P[k > n].sum()], [t1, t2], "skellam reference", rtol=0,
                  atol=12 * t + 1e-12)


def mid(a, b):
    """P(X_a > Y_b) + .5 P(X_a = Y_b)"""
    P, zero = difference(a, b)
    k = np.arange(len(P)) - zero
    return float(P[k < 0].sum() + .5 * P[zero])


def conditional(ctx):
    tol, kw, t = tolerance(ctx)
    b = float(np.exp(ctx.rng.uniform(np.log(.03), np.log(20))))
    if ctx.chance(.2):
        b = ctx.randint(1, 12)
    if ctx.chance(.06):
        b = float(ctx.rng.uniform(20, 150))
    kind = ctx.choice(["rates", "rates", "rates", "free", "edge", "bad"])
    must = False
    low = .5 * np.exp(-b)
    if kind == "rates":
        a = float(np.exp(ctx.rng.uniform(np.log(.03), np.log(20))))
        if b >= 20:
            a = b * ctx.rng.uniform(.7, 1.4)
        target = mid(a, b)
        ctx.note("from", a)
        must = .02 <= target <= .98 and target >= low + .01
    elif kind == "free":
        target = float(ctx.rng.uniform(0, 1))
        must = low + 1e-3 <= target <= .99
    elif kind == "edge":
        target = float(ctx.choice([low + 10 ** -ctx.rng.uniform(3, 12),
                                   1 - 10 ** -ctx.rng.uniform(2, 7)]))
    else:
        target = float(ctx.choice([0., 1., -.2, 1.3, .99 * low, .5 * low, low * (1 - 1e-6)]))
    ctx.note("conditional", kind, "b", b, repr(target), tol)
    ctx.sig(kind, round(b, 3), round(target, 4), tol)
    a, err = watched(ctx, sk.conditional_skellam_cdf_root, b, target, **kw)
    if kind == "bad" or target <= low * (1 - 1e-9) or target >= 1:
        return refused(ctx, a, err, "conditional")
    if must and t >= 1e-10:
        ctx.check(err is None, "conditional solved", lambda: repr(err))
    if err is None:
        a = good(ctx, a, "conditional")
        ctx.check(a.shape == (), "conditional scalar")
        ctx.close(mid(float(a), b), target, "conditional root", rtol=0, atol=12 * t + 1e-12)


WORKLOADS = [("poisson", poisson, 1500, 30000), ("skellam", skellam, 1500, 30000),
             ("conditional", conditional, 1500, 30000)]
