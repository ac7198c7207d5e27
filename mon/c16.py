"""C16: the objective is the penalised log-likelihood of the named distribution."""
import numpy as np
import pandas as pd
from scipy import stats, special
import maxlike
from maxlike.func import X, Exp, Quadratic, Linear
from .core import Skip, Violation
from .exprs import Gen, E, expit, ref_poisson, ref_lognb
from .models import *

RULE = ("random observations drawn cell by cell (empty cells, zero counts, integer / float / "
        "nested list containers), aggregated and given to every model class with random "
        "regression, saturated and nested expressions and penalties; objective compared with "
        "the sum of scipy log-probabilities of the individual observations: exactly for single "
        "observations, as differences between parameter points for aggregated ones. "
        "Distinct by model, layout and data.")


def logpmf(kind, hyper, y, x):
    """log-probability of the observation x in a cell with predictor y"""
    if kind == "poisson":
        return stats.poisson.logpmf(x, np.exp(y))
    if kind == "logistic":
        return float(special.log_expit(y if x else -y))
    if kind == "nb":
        m = np.exp(y)
        return stats.nbinom.logpmf(x, hyper, hyper / (hyper + m))
    m = np.exp(y)
    norm = m + np.log1p((hyper - 1) * np.exp(-m))     # log of e^m + s - 1
    if x == 0:
        return np.log(hyper) - norm if hyper > 0 else -np.inf
    return x * y - special.gammaln(x + 1) - norm


def observe(ctx, kind, hyper, y, n):
    """n observations"""
    rng = ctx.rng
    m = np.exp(y) if kind != "logistic" else 0
    if kind == "poisson":
        return rng.poisson(m, n)
    if kind == "logistic":
        return rng.binomial(1, expit(y), n)
    if kind == "nb":
        return rng.poisson(rng.gamma(hyper, m / hyper, n))
    out = []
    while len(out) < n:
        x = int(rng.poisson(m))
        if x == 0:
            # weight of zero relative to the Poisson distribution
            w = hyper / max(1., hyper)
        else:
            w = 1. / max(1., hyper)
        if rng.random() < w:
            out.append(x)
        elif m > 30:
            out.append(x or 1)
    return np.array(out, dtype=int)


def container(ctx, a):
    """same data in another container"""
    kind = ctx.choice(["float", "float", "int", "list", "fortran"])
    if kind == "int" and np.all(a == np.round(a)):
        return a.astype(int)
    if kind == "list":
        return a.tolist()
    if kind == "fortran":
        return np.asfortranarray(a)
    return a


def pick(ctx, kind, hyper):
    """expression, parameters"""
    what = ctx.choice(["saturated", "wild", "wild", "regression"])
    if what == "regression" and kind in ("poisson", "zip", "logistic", "nb"):
        mod = well_posed(ctx, kind, masks=False)
        return mod.e, mod.truth, mod.F
    g = Gen(ctx)
    wide = {"poisson": 4, "nb": 4, "zip": 4, "logistic": 25}[kind]
    if what == "wild":
        F, P = g.problem()
        e = g.bounded(F, P, ctx.randint(0, 2), -1.5, 1.5)
        return e, g.values(P), F
    F = [ctx.randint(1, 4) for _ in range(ctx.randint(0, 3))]
    e = E(X(), lambda p: p[0], len(F), 0, "X")
    return e, [ctx.rng.uniform(-wide, wide, F)], F


def penalties(ctx, shapes):
    R, free = [], True
    n = ctx.choice([0, 0, 1, 2])
    if ctx.chance(.1):
        n = ctx.randint(3, 6)
    for _ in range(n):
        pm = ctx.sample(len(shapes), ctx.randint(1, min(2, len(shapes))))
        r = ridge(ctx, pm)
        if R and free and ctx.chance(.5):
            # the same function for other parameters
            r = (r[0], R[0][1], R[0][2])
        elif ctx.chance(.5):
            r, free = scalar_function(ctx, shapes), False
        R.append(r)
    return R


def give(ctx, mod, m, data):
    try:
        m.fit(max_steps=0, **{k: container(ctx, v) for k, v in data.items()})
    except maxlike.maxlike_base.ConvergenceError:
        pass


def penalty(mod, params):
    return sum(float(np.sum(ref([np.asarray(params[k], float)[None] for k in pm])))
               for pm, _, ref in mod.regs)


def objective(ctx, m, mod, params):
    mod.start(m, params)
    g = ctx.call("objective", m.g, m.params)
    ctx.check(isinstance(g, float), "objective is a number", lambda: str(type(g)))
    if ctx.chance(.3):
        ctx.close(ctx.call("objective with y", m.g, m.params, m.model(m.params)), g,
                  "objective with y", rtol=1e-12)
    return g


def cells(e, params, F):
    y = e.ref([np.asarray(p, float)[None] for p in params])[0]
    return np.broadcast_to(y, tuple(F) + y.shape[len(F):])


def counts(ctx):
    kind = ctx.choice(["poisson", "zip", "logistic", "nb"])
    hyper = hyper_of(ctx, kind)
    if kind == "zip":
        hyper = ctx.choice([hyper, hyper, 0, .1, 20])
    e, params, F = pick(ctx, kind, hyper)
    params = [np.asarray(p, dtype=float) for p in params]
    shapes = [p.shape for p in params]
    y = cells(e, params, F)
    single = ctx.chance(.5)
    n = ctx.rng.integers(0, 2, F) if single else ctx.rng.integers(0, 9, F)
    n = np.asarray(n)
    if n.sum() == 0 or (single and kind == "nb"):
        # (the constant of the negative binomial counts empty cells)
        n = np.ones(F, int)
    obs = {idx: observe(ctx, kind, hyper, float(y[idx]), int(n[idx]))
           for idx in np.ndindex(*F)}
    Xs, Zs = np.zeros(F), np.zeros(F)
    for idx, o in obs.items():
        Xs[idx], Zs[idx] = np.sum(o), np.sum(np.asarray(o) == 0)
    data = {"N": n.astype(float), "X": Xs}
    if kind == "zip":
        data["Z"] = Zs
    mod = Model(kind, hyper, e, params, [None] * len(params), [], penalties(ctx, shapes), data)
    ctx.note(kind, hyper, e.text[:200], F, "single" if single else "aggregated",
             "N", n.tolist(), "X", Xs.tolist(), "penalties", [r[0] for r in mod.regs])
    ctx.sig(kind, hyper, e.text, tuple(F), single)
    c = 1. if single else ctx.choice([1., 1., 1., .001, .02, .37, 50.])
    if c != 1:
        # exposures and counts in other units
        ctx.note("unit", c)
        data = mod.data = {k: v * c for k, v in data.items()}
    m = mod.build()
    give(ctx, mod, m, data)

    def want(params, a=1., b=0.):
        y = a * cells(e, params, F) + b
        v = c * sum(logpmf(kind, hyper, float(y[idx]), int(x))
                for idx, o in obs.items() for x in o)
        return (v - penalty(mod, params)) / (c * n.sum()), np.abs(y).max()

    g0 = objective(ctx, m, mod, params)
    w0, _ = want(params)
    ctx.event("observations", int(n.sum()))
    tol = dict(rtol=1e-9, atol=1e-9)
    if single:
        ctx.close(g0, w0, "%s single observations" % kind, **tol)
    for _ in range(2):
        other = [p + ctx.rng.uniform(-.7, .7, p.shape) for p in params]
        g1 = objective(ctx, m, mod, other)
        w1, _ = want(other)
        if single:
            ctx.close(g1, w1, "%s single observations" % kind, **tol)
        else:
            s = 1 + abs(w0) + abs(w1)
            ctx.close(g1 - g0, w1 - w0, "%s differences" % kind, rtol=0, atol=1e-9 * s)
    if ctx.chance(.15):
        # the model, its penalties or the list of parameters change afterwards
        w2, how = w1, ctx.choice(["model", "penalty", "list"])
        if how == "model":
            a, b = ctx.choice([.5, .8]), ctx.choice([.3, -.2])
            m.model = a * e.f + b
            w2 = want(other, a, b)[0]
            g2 = ctx.call("objective", m.g, m.params)
        elif how == "penalty":
            r = ridge(ctx, [ctx.randint(0, len(shapes) - 1)])
            m.add_regularization(r[0][0], r[1])
            mod.regs = mod.regs + [r]
            w2 = want(other)[0]
            g2 = ctx.call("objective", m.g, m.params)
        else:
            L = [p.copy() for p in params]
            ctx.close(ctx.call("objective", m.g, L), g0, "objective of a list", **tol)
            for k, p in enumerate(other):
                if ctx.chance(.5) and p.ndim:
                    L[k][...] = p
                else:
                    L[k] = p
            g2 = ctx.call("objective", m.g, L)
        ctx.event("changed: " + how)
        ctx.close(g2 - g0, w2 - w0, "%s after a change of the %s" % (kind, how), rtol=0,
                  atol=1e-9 * (1 + abs(w0) + abs(w2)))


def finite(ctx):
    kind = ctx.choice(["finite", "nfinite"])
    g = Gen(ctx)
    F, P = g.problem(max_feat=2)
    params = g.values(P)
    what = ctx.choice(["counts", "markov", "joint", "softmax", "table"])
    if kind == "nfinite" and what in ("softmax", "joint", "counts"):
        what = ctx.choice(["markov", "table"])
    if what == "markov":
        e = g.markov(F, P, 0)
    elif what == "joint":
        e = g.joint(F, P, 0)
    elif what == "counts":
        e = g.counts(F, P, 1)
        if "LogNB" in e.text:
            e0 = e
            e = E(Exp() @ e0.f, lambda p: np.exp(e0.ref(p)), e0.n, e0.d, "Exp@" + e0.text)
    else:
        # probabilities given directly, through a copy of the parameter
        size = ctx.randint(2, 4)
        if ctx.chance(.15):
            size = ctx.randint(5, 30)
        b = g.bounded(F, P, 0, .2, 2. if size < 5 else size / 3.)
        e = E(maxlike.func.Poisson(size) @ b.f, lambda p: ref_poisson(b.ref(p), size),
              b.n, 1, "Poisson@" + b.text)
        if kind == "nfinite":
            r = 1.5
            e = E(maxlike.func.NegativeBinomial(size, r) @ b.f,
                  lambda p: np.exp(ref_lognb(b.ref(p), size, r)), b.n, 1, "NB@" + b.text)
    d = e.d
    y = e.ref([np.asarray(p, float)[None] for p in params])[0]
    y = np.broadcast_to(y, tuple(F) + y.shape[len(F):])
    if np.any(y <= 0):
        raise Skip()
    frac = ctx.chance(.2)
    N = ctx.rng.integers(0, 5, y.shape).astype(float)
    if frac:
        N = N * ctx.rng.uniform(0, 1, y.shape)
    if N.sum() == 0:
        N.flat[0] = 1.
    if ctx.chance(.2):
        N = N / N.sum() * ctx.choice([1., .01, .4])
    mod = Model(kind, d, e, params, [None] * len(params), [],
                penalties(ctx, [p.shape for p in params]), {"N": N})
    ctx.note(kind, d, e.text[:300], F, "N", np.round(N, 3).tolist())
    ctx.sig(kind, d, e.text, tuple(F))
    m = mod.build()
    give(ctx, mod, m, mod.data)
    for _ in range(3):
        y = cells(e, params, F)
        p = y
        if kind == "finite":
            p = y / y.sum(tuple(range(y.ndim - d, y.ndim)), keepdims=True)
        want = 0.
        for idx in np.ndindex(*N.shape):
            if N[idx]:
                want += N[idx] * np.log(p[idx])
        want = (want - penalty(mod, params)) / N.sum()
        ctx.close(objective(ctx, m, mod, params), want, kind, rtol=1e-9, atol=1e-9)
        params = [p + ctx.rng.uniform(-.5, .5, p.shape) for p in params]
    ctx.event("observations", int(N.sum()))


def extreme(ctx):
    """large predictors, one cell"""
    kind = ctx.choice(["zip", "zip", "poisson", "logistic", "nb"])
    hyper = hyper_of(ctx, kind)
    if kind == "zip" and ctx.chance(.3):
        hyper = ctx.choice([0, 1e-9, 1e-6, 1e-3, 50., 1e4])
    if kind == "nb" and ctx.chance(.3):
        hyper = ctx.choice([1e-3, .02, 30., 1e3])
    y = float(ctx.rng.uniform(-20, 20) * ctx.choice([1, 1, 25]) if kind == "logistic" else ctx.rng.uniform(-8, 7.5)
              if kind == "zip" else ctx.rng.uniform(-18, 18))
    if kind == "logistic":
        x = ctx.randint(0, 1)
    else:
        x = int(ctx.rng.poisson(np.exp(y)) * ctx.choice([1, 1, 1, .5, 2]))
    data = {"N": np.array([1.]), "X": np.array([float(x)])}
    if kind == "zip":
        data["Z"] = np.array([float(x == 0)])
    e = E(X(), lambda p: p[0], 1, 0, "X")
    mod = Model(kind, hyper, e, [np.array([y])], [None], [], [], data)
    ctx.note(kind, hyper, y, x)
    ctx.sig(kind, hyper, round(y, 2), x)
    m = mod.build()
    give(ctx, mod, m, data)
    # counts of this size cancel with their factorials
    ctx.close(objective(ctx, m, mod, mod.params), logpmf(kind, hyper, y, x),
              "extreme " + kind, rtol=1e-8, atol=1e-8 + 1e-13 * x * (abs(y) + np.log(x + 1)))


def unlikely(ctx):
    mod, like, _, _ = rare(ctx)
    m = mod.build()
    give(ctx, mod, m, mod.data)
    N = mod.data["N"]
    ctx.close(objective(ctx, m, mod, mod.params), (N * like).sum() / N.sum(),
              "unlikely " + mod.kind, rtol=1e-10, atol=1e-10)


WORKLOADS = [("unlikely", unlikely, 300, 4000), ("counts", counts, 1200, 20000), ("finite", finite, 500, 8000),
             ("extreme", extreme, 600, 6000)]
