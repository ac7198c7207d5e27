"""C13: copulas vs their formulas."""
import numpy as np
from scipy import special
from maxlike import copula
from maxlike.tensor import Tensor
from .core import Skip, Violation
from .dense import *

RULE = ("random margins (1-8 points, unequal lengths, unnormalised, integers, zero entries, "
        "batches of 1-3 axes, numbers of any scale) and parameters over the documented range "
        "(weak to extreme dependence); totals, signs, margins and cumulative tables judged. "
        "Distinct by family, shapes and parameter.")


def gauss2(h, k, rho):
    """P(X <= h, Y <= k), by integration over the correlation"""
    x, w = np.polynomial.legendre.leggauss(400)
    top = np.arcsin(rho)
    th = top * (x + 1) / 2
    h, k = h[..., None], k[..., None]
    with np.errstate(all="ignore"):
        z = np.exp(-(h * h - 2 * h * k * np.sin(th) + k * k) / (2 * np.cos(th) ** 2))
    z = np.where(np.isfinite(h) & np.isfinite(k), z, 0)
    return special.ndtr(h[..., 0]) * special.ndtr(k[..., 0]) + \
        (z * w).sum(-1) * top / 2 / (2 * np.pi)


def clayton(x, y, a):
    lo, hi = np.minimum(x, y), np.maximum(x, y)
    with np.errstate(all="ignore"):
        # min * (1 + (min / max)^a - min^a)^(-1/a)
        s = np.where(lo > 0, (lo / hi) ** a - lo ** a, 0)
        return np.where(lo > 0, lo * (1 + s) ** (-1 / a), 0)


def gumbel(x, y, a):
    with np.errstate(all="ignore"):
        u, v = -np.log(x), -np.log(y)
        m, r = np.maximum(u, v), np.minimum(u, v) / np.maximum(u, v)
        c = np.exp(-m * (1 + r ** a) ** (1 / a))
    return np.where((x == 0) | (y == 0), 0, np.where(m == 0, 1, c))


def frank(x, y, a):
    if abs(a) < 1e-7:
        # first order: xy + a/2 xy(1-x)(1-y)
        return x * y * (1 + a / 2 * (1 - x) * (1 - y))
    if abs(a) <= 5:
        return -np.log1p(np.expm1(-a * x) * np.expm1(-a * y) / np.expm1(-a)) / a
    if a < 0:
        return x - frank(x, 1 - y, -a)
    # -1/a log((e^-ax + e^-ay - e^-a(x+y) - e^-a) / (1 - e^-a)), scaled by e^-a min
    m = np.minimum(x, y)
    z = np.exp(-a * (x - m)) + np.exp(-a * (y - m)) - np.exp(-a * (x + y - m)) - \
        np.exp(-a * (1 - m))
    with np.errstate(all="ignore"):
        return np.where(m == 0, 0, m - (np.log(z) - np.log1p(-np.exp(-a))) / a)


def amh(x, y, a):
    return x * y / (1 - a * (1 - x) * (1 - y))


def small(ctx):
    """parameters of almost independent tables"""
    return float(10 ** ctx.rng.uniform(-5, -1.5))


def family(ctx):
    name = ctx.choice(["gauss", "clayton", "gumbel", "frank", "amh"])
    if name == "gauss":
        a = ctx.choice([float(ctx.rng.uniform(-.95, .95)), 0, 0., .99, -.99])
        if ctx.chance(.1):
            a = small(ctx) * ctx.choice([-1, 1])
        return name, copula.Gaussian, a, gauss2, 1e-7 if abs(a) > .96 else 1e-9
    if name == "clayton":
        a = ctx.choice([float(np.exp(ctx.rng.uniform(np.log(.02), np.log(30)))), 1, 2, .5,
                        200., 2000.])
        if ctx.chance(.15):
            a = small(ctx)
        return name, copula.Clayton, a, clayton, 1e-9
    if name == "gumbel":
        a = ctx.choice([1, 1., 2, float(ctx.rng.uniform(1, 10)), 40., 500.])
        if ctx.chance(.1):
            a = 1 + small(ctx)
        return name, copula.Gumbel, a, gumbel, 1e-9
    if name == "frank":
        a = ctx.choice([float(ctx.rng.normal() * 5), 1, -1, 1e-8, -1e-8, 30., -30, 200.,
                        -200., 2000.])
        if ctx.chance(.15):
            a = small(ctx) * ctx.choice([-1, 1])
        return name, copula.Frank, a or 1., frank, 1e-9
    a = ctx.choice([float(ctx.rng.uniform(-.99, .99)), 0, 0., .5, -.999, .999])
    if ctx.chance(.1):
        a = small(ctx) * ctx.choice([-1, 1])
    return name, copula.AkiMikhailHaq, a, amh, 1e-9


def margin(ctx, batch, n):
    kind = ctx.choice(["float", "int", "zeros", "normal", "scale", "tail"])
    shape = tuple(batch) + (n,)
    if kind == "int":
        m = ctx.rng.integers(0, 7, shape)
        m[..., ctx.randint(0, n - 1)] += 1
    elif kind == "zeros":
        m = ctx.rng.uniform(.1, 1, shape) * (ctx.rng.random(shape) < .6)
        m[..., ctx.randint(0, n - 1)] += .5
    elif kind == "tail":
        m = ctx.rng.uniform(.1, 1, shape) * 10. ** -ctx.rng.integers(0, 6, shape)
    else:
        m = ctx.rng.uniform(.05, 1, shape)
        if kind == "normal":
            m = m / m.sum(-1, keepdims=True)
        if kind == "scale":
            m = m * 10. ** ctx.randint(-8, 8)
    return m, kind


def tables(ctx):
    name, cls, a, ref, tol = family(ctx)
    batch = [ctx.randint(1, 3) for _ in range(ctx.choice([0, 0, 0, 0, 1, 1, 2, 3]))]
    n, m = ctx.randint(1, 8), ctx.randint(1, 8)
    if ctx.chance(.06):
        n, m = ctx.randint(10, 45), ctx.randint(1, 45)
    elif batch and ctx.chance(.1):
        batch[-1] = ctx.randint(8, 40)
    x, kx = margin(ctx, batch, n)
    y, ky = margin(ctx, batch, m)
    if ctx.chance(.05):
        y, ky, m = ctx.choice([x, x.copy(), 3 * x]), kx, n      # equal margins
    ctx.note(name, a, "batch", batch, kx, np.round(x, 5).tolist(), ky,
             np.round(y, 5).tolist())
    ctx.sig(name, round(float(a), 1), tuple(x.shape), tuple(y.shape), kx, ky)
    c = cls(a) if ctx.chance(.5) else cls(rho=a)
    if a == 1 and name in ("clayton", "gumbel", "frank") and ctx.chance(.3):
        c = cls()
    if a == 0 and name in ("gauss", "amh") and ctx.chance(.3):
        c = cls()
    how = ctx.choice(["list", "tuple", "tensor", "lists"])
    args = {"list": [x, y], "tuple": (x, y), "tensor": [Tensor(x), Tensor(y)],
            "lists": [x.tolist(), y.tolist()]}[how]
    bx, by = x.copy(), y.copy()
    t = ctx.call(name, c, args)
    ctx.check(np.array_equal(x, bx) and np.array_equal(y, by), "margins untouched")
    t = np.asarray(t)
    ctx.check(t.shape == tuple(batch) + (n, m), name + " shape", lambda: str(t.shape))
    t = t.astype(float)
    ctx.check(np.all(np.isfinite(t)), name + " finite")
    ctx.check(np.all(t >= -tol * .1), name + " non-negative", lambda: str(t.min()))
    ctx.close(t.sum((-1, -2)), np.ones(batch), name + " total", atol=tol)
    judge_table(ctx, name, a, ref, tol, t, x, y)
    if ctx.chance(.4):
        # the same object, other margins, possibly very close to them
        new = [m * (1 + ctx.choice([1e-4, 1e-2, .5]) * ctx.rng.uniform(-1, 1, m.shape))
               if ctx.chance(.7) else m for m in (x, y)]
        if ctx.chance(.5) and how in ("list", "tuple") and x is not y and "int" not in kx + ky:
            # in the same memory
            for m, v in zip((x, y), new):
                m[...] = v
            x, y = x.copy(), y.copy()
            ctx.event("in the same memory")
        else:
            x, y = args = new
        t = np.asarray(ctx.call(name, c, args)).astype(float)
        judge_table(ctx, name, a, ref, tol, t, x, y)
        ctx.event("objects used again")


def judge_table(ctx, name, a, ref, tol, t, x, y):
    batch = x.shape[:-1]
    fx = x / x.sum(-1, keepdims=True)
    fy = y / y.sum(-1, keepdims=True)
    ctx.close(t.sum(-1), fx, name + " row margin", rtol=0, atol=tol)
    ctx.close(t.sum(-2), fy, name + " column margin", rtol=0, atol=tol)
    X, Y = fx.cumsum(-1), fy.cumsum(-1)
    X = np.minimum(X / X[..., -1:], 1)
    Y = np.minimum(Y / Y[..., -1:], 1)
    X, Y = X[..., :, None], Y[..., None, :]
    if name == "gauss":
        want = gauss2(special.ndtri(X) + 0 * Y, special.ndtri(Y) + 0 * X, a)
    else:
        want = ref(X + 0 * Y, Y + 0 * X, float(a))
    exact = name != "gauss" and (abs(a) <= 5 and (name != "frank" or abs(a) > 1e-5)) and (
        name != "clayton" or a > .01)
    ctx.close(t.cumsum(-1).cumsum(-2), want, name + " cumulative", rtol=0,
              atol=1e-11 if exact else 20 * tol)
    if (name in ("gauss", "amh") and a == 0) or (name == "gumbel" and a == 1):
        ctx.close(t, fx[..., :, None] * fy[..., None, :], name + " independence",
                  rtol=0, atol=tol)
    ctx.event("cells", t.size)


def batches(ctx):
    """every cell of a batch is the table of its own margins"""
    name, cls, a, ref, tol = family(ctx)
    n, m, k = ctx.randint(1, 5), ctx.randint(1, 5), ctx.randint(2, 4)
    x, y = ctx.rng.uniform(.1, 1, (k, n)), ctx.rng.uniform(.1, 1, (k, m))
    c = cls(a)
    t = np.asarray(ctx.call(name, c, [x, y])).astype(float)
    ctx.note(name, a, n, m, k)
    ctx.sig(name, n, m, k)
    for i in range(k):
        ctx.close(t[i], np.asarray(c([x[i], y[i]])).astype(float), name + " batch", rtol=0,
                  atol=1e-11)
    # exchangeable
    s = np.asarray(c([y, x])).astype(float)
    ctx.close(np.swapaxes(s, -1, -2), t, name + " exchange", rtol=0, atol=tol)
    # scale of the margins
    s = np.asarray(c([7 * x, .25 * y])).astype(float)
    ctx.close(s, t, name + " scale", rtol=0, atol=tol)
    if name == "frank" or name in ("gauss", "amh"):
        # stronger parameters, larger diagonal corner
        b = a + .04 if name != "frank" else a + 1.
        if (abs(b) < 1 and name != "frank") or (name == "frank" and b != 0):
            u = np.asarray(cls(b)([x, y])).astype(float)
            ctx.check(np.all(u[..., 0, 0] >= t[..., 0, 0] - tol), name + " order")


def corner(ctx):
    """small first cells: the first probability with its own magnitude"""
    name = ctx.choice(["clayton", "gumbel", "frank", "frank", "amh", "amh"])
    if name == "frank":
        a = float(ctx.choice([-1, 1]) * 10 ** ctx.rng.uniform(-9, 1.2))
        cls, ref = copula.Frank, frank
    elif name == "amh":
        a = float(ctx.choice([-1, 1]) * (1 - 10 ** -ctx.rng.uniform(0, 7)))
        cls, ref = copula.AkiMikhailHaq, amh
    elif name == "clayton":
        a = float(10 ** ctx.rng.uniform(-3, 1.5))
        cls, ref = copula.Clayton, clayton
    else:
        a = float(1 + 10 ** ctx.rng.uniform(-4, 1.2))
        cls, ref = copula.Gumbel, gumbel
    n, m = ctx.randint(2, 4), ctx.randint(2, 4)
    x, y = ctx.rng.uniform(.2, 1, n), ctx.rng.uniform(.2, 1, m)
    x[0], y[0] = 10 ** ctx.rng.uniform(-11, -1, 2)
    if ctx.chance(.3):
        y[0] = x[0] * ctx.rng.uniform(.5, 2)
    if ctx.chance(.3):
        y[0] = .5
    ctx.note(name, a, x.tolist(), y.tolist())
    ctx.sig(name, round(a, 2), n, m, np.round(np.log10([x[0], y[0]])))
    t = np.asarray(ctx.call(name, cls(a), [x, y])).astype(float)
    u, v = x[0] / x.sum(), y[0] / y.sum()
    if name == "frank" and abs(a) < 1e-4:
        want = u * v * (1 + a / 2 * (1 - u) * (1 - v))      # up to a ** 2
    else:
        want = float(ref(np.array(u), np.array(v), a))
    ctx.close(t[0, 0], want, name + " first cell", rtol=1e-7, atol=1e-14)
    # conditional probabilities of the other rows, given the small cells
    C = lambda p, q: float(ref(np.array(min(p, 1.)), np.array(min(q, 1.)), a))
    if name != "frank" or abs(a) >= 1e-4:
        q = y[:2].sum() / y.sum()
        ctx.close(t[0, :2].sum(), C(u, q), name + " first row", rtol=1e-7, atol=1e-14)
    ctx.close(t[0].sum(), u, name + " row margin", rtol=1e-9, atol=1e-14)
    ctx.close(t[:, 0].sum(), v, name + " column margin", rtol=1e-9, atol=1e-14)


WORKLOADS = [("corner", corner, 800, 12000), ("tables", tables, 2500, 40000), ("batches", batches, 500, 8000)]
