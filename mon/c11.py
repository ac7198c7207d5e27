"""C11: tennis functions vs the scoring rules, played point by point."""
import numpy as np
from maxlike.func.tennis import Game, TieBreak, Set
from maxlike.func import Collapse, Sum, X, Logistic
from maxlike.tensor import Tensor
from .core import Skip, Violation
from .dense import *
from .exprs import *

RULE = ("random probabilities in (0, 1) (incl. near the ends and one half), scalars, arrays of "
        "1-3 axes; probabilities of every score compared with the enumeration of the scoring "
        "chain, derivatives with complex steps of it, totals of complements. Distinct by "
        "function, shape and kind of probabilities.")

FUNCS = {"game": (Game, ref_game, 1, 4), "tiebreak": (TieBreak, ref_tiebreak, 1, 7),
         "set": (Set, ref_set, 2, 7)}


def probs(ctx, F):
    kind = ctx.choice(["uniform", "uniform", "ends", "half", "wide"])
    ctx.sig(kind)
    if kind == "uniform":
        return ctx.rng.uniform(.01, .99, F)
    if kind == "ends":
        z = 10 ** ctx.rng.uniform(-7, -1, F)
        return np.where(ctx.rng.random(F) < .5, z, 1 - z)
    if kind == "half":
        return np.full(F, .5) + ctx.rng.choice([0, 1e-3, -1e-3], F)
    return ctx.rng.beta(.5, .5, F) * .999 + .0005


def judged(ctx, t, want, n, kind, p_axes=0, atol=1e-11):
    """
    want: dense reference with the axes (parameters, features, score). With two
    or more features, the recorded finding is recognised by its effect: the
    last feature comes first.
    """
    ctx.check(isinstance(t, BaseTensor), kind + " type")
    d = dense_of(t)
    scale = max(1., float(np.max(np.abs(want))))
    if d.shape == want.shape and np.allclose(d, want, rtol=1e-8, atol=atol * scale):
        ctx.event("judged:" + kind)
        return
    if n >= 2:
        rot = want
        for g in range(p_axes + 1):
            rot = np.moveaxis(rot, g * n + n - 1, g * n)
        if d.shape == rot.shape and np.allclose(d, rot, rtol=1e-8, atol=atol * scale):
            ctx.event("judged:" + kind)
            ctx.finding("feature-axes", "the last feature comes first")
            return
    ctx.close(d, want, kind, rtol=1e-8, atol=atol * scale)


def relative(ctx, d, want, n, kind):
    """probabilities of rare scores count as well, in any order of the axes"""
    if n < 2:
        ctx.close(d, want, kind + " relative", rtol=1e-6, atol=1e-50)
    else:
        ctx.close(np.sort(d.ravel()), np.sort(want.ravel()), kind + " relative", rtol=1e-6,
                  atol=1e-50)


def diag(own, n, k):
    """own derivatives (features, score) as a dense array with k groups of parameter axes"""
    F = own.shape[:n]
    out = np.zeros(F * k + own.shape)
    idx = tuple(np.indices(F))
    out[idx * (k + 1)] = own
    return out


def scores(ctx, n):
    name = ctx.choice(list(FUNCS))
    cls, ref, m, size = FUNCS[name]
    F = tuple(ctx.randint(1, 4) for _ in range(n))
    ps = [probs(ctx, F) for _ in range(m)]
    ctx.note(name, F, [np.round(p, 7).tolist() for p in ps])
    ctx.sig(name, F)
    f = cls()
    args = list(ps)
    if ctx.chance(.3):
        args = [Tensor(p) for p in ps]
    want = ref(*ps)
    for kind, t in (("value", ctx.call("call", f, args)),
                    ("eval value", ctx.call("eval", f.eval, args)[0])):
        if n < 2:
            ctx.check(groups(t) == (0, 0, n, 1), kind + " groups", lambda: str(groups(t)))
        judged(ctx, t, want, n, name + " " + kind)
        # Set floors the probability at 1e-10
        ok = np.all(ps[0] > 1e-9) and np.all(ps[0] < 1 - 1e-9)
        if ok:
            relative(ctx, dense_of(t), want, n, name + " " + kind)
    # totals, independent of the order of the axes
    tot = dense_of(f(args)).sum(-1) + dense_of(f([1 - p for p in ps])).sum(-1)
    ctx.close(np.sort(tot.ravel()), np.ones(tot.size), name + " total", rtol=1e-9)
    v = dense_of(f(args))
    ctx.check(np.all(v >= -1e-15) and np.all(v.sum(-1) <= 1 + 1e-9), name + " range")
    if n > 2:
        return
    one = f.eval(args)
    for k in range(m):
        z = [p + 0j for p in ps]
        z[k] = z[k] + 1e-30j
        own = ref(*z).imag / 1e-30
        g = ctx.call("grad", f.grad, args, k)
        for kind, t in (("gradient", g), ("eval gradient", one[1][k])):
            judged(ctx, t, diag(own, n, 1), n, name + " " + kind, 1, 1e-9)
        for l in range(k + 1):
            # fourth order differences of the exact derivative, within (0, 1)
            h = np.minimum(1e-3, np.minimum(ps[l], 1 - ps[l]) / 3)

            def d(c):
                y = [w.copy() for w in z]
                y[l] = y[l] + c * h
                return ref(*y).imag / 1e-30
            hh = (-d(2) + 8 * d(1) - 8 * d(-1) + d(-2)) / (12 * h[..., None])
            t = ctx.call("hess", f.hess, args, k, l)
            for kind, t in (("hessian", t), ("eval hessian", one[2][k][l])):
                judged(ctx, t, diag(hh, n, 2), n, name + " " + kind, 2, 1e-6)


def single(ctx):
    scores(ctx, ctx.randint(0, 1))


def several(ctx):
    scores(ctx, ctx.randint(2, 3))


def again(ctx):
    """one object, probabilities that change in the same memory or in the same list"""
    n = ctx.randint(0, 1)
    name = ctx.choice(list(FUNCS))
    cls, ref, m, size = FUNCS[name]
    F = tuple(ctx.randint(1, 4) for _ in range(n))
    f = cls()
    ps = [ctx.rng.uniform(.05, .95, F) for _ in range(m)]
    ctx.note(name, F, [np.round(p, 7).tolist() for p in ps])
    ctx.sig(name, F)
    for c, q in moved(ctx, ps):
        want = ref(*q)
        val, gs, _ = ctx.call("eval", f.eval, c)
        for t in (ctx.call("call", f, c), val):
            judged(ctx, t, want, n, name + " again")
        k = ctx.randint(0, m - 1)
        z = [p + 0j for p in q]
        z[k] = z[k] + 1e-30j
        own = diag(ref(*z).imag / 1e-30, n, 1)
        for t in (ctx.call("grad", f.grad, c, k), gs[k]):
            judged(ctx, t, own, n, name + " again gradient", 1, 1e-9)
        if ctx.chance(.4):
            ctx.call("hess", f.hess, c, k, 0)


def known_points(ctx):
    """published values of the game, and the limits"""
    p = float(ctx.rng.uniform(.05, .95))
    g = dense_of(Game()(p)).sum(-1)
    q = 1 - p
    # closed formula of the probability of winning a game
    want = p ** 4 * (15 - 4 * p - 10 * p ** 2 / (1 - 2 * p * q))
    ctx.note("p", p)
    ctx.sig(round(p, 2))
    ctx.close(g, want, "game total", rtol=1e-10)
    ctx.close(dense_of(Game()(.5)).sum(-1), .5, "even game", rtol=1e-12)
    ctx.close(dense_of(TieBreak()(.5)).sum(-1), .5, "even tiebreak", rtol=1e-12)
    ctx.close(dense_of(Set()([.5, .5])).sum(-1), .5, "even set", rtol=1e-12)
    # monotone in p
    x = np.sort(ctx.rng.uniform(.001, .999, 20))
    for f in (Game(), TieBreak()):
        ctx.check(np.all(np.diff(dense_of(f(x)).sum(-1)) >= -1e-12), "monotone")


def simulate(ctx):
    """matches played point by point with random numbers"""
    p = float(ctx.rng.uniform(.3, .7))
    N = 4000
    kind = ctx.choice(["game", "tiebreak"])
    target = 4 if kind == "game" else 7
    i = np.zeros(N, int); j = np.zeros(N, int)
    live = np.ones(N, bool)
    while live.any():
        w = ctx.rng.random(N) < p
        i += live & w
        j += live & ~w
        live = ~(((i >= target) | (j >= target)) & (np.abs(i - j) >= 2))
    won = i > j
    last = np.minimum(j, target - 1)
    freq = np.array([np.mean(won & (last == k)) for k in range(target)])
    v = dense_of((Game if kind == "game" else TieBreak)()(p))
    ctx.note(kind, p, freq.tolist())
    ctx.sig(kind, round(p, 2))
    sd = np.sqrt(v * (1 - v) / N)
    ctx.check(np.all(np.abs(freq - v) < 6 * sd + 3 / N), "simulation",
              lambda: "%s vs %s" % (freq, v))


WORKLOADS = [("again", again, 150, 2500), ("single", single, 1000, 20000), ("several", several, 500, 8000),
             ("known_points", known_points, 100, 1500), ("simulate", simulate, 60, 800)]
