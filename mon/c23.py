"""C23: estimates of transformed problems."""
import copy
import numpy as np
import maxlike
from maxlike.func import (X, Constant, Scalar, Vector, Linear, Quadratic, Exp, Sum, Product,
                          MarkovMatrix, MarkovVector, CollapseMatrix)
from maxlike.func import Poisson as FPoisson
from .core import Skip, Violation
from . import models
from .exprs import ref_poisson, ref_markov, ref_markov_vector, ref_collapse_matrix, WDL

RULE = ("random regression and score models described by a list of terms are fitted, and fitted "
        "again after 1-4 transformations: permuted levels, reordered parameters and features, "
        "cells split over a further feature, scaled counts (with penalties scaled alike), "
        "expressions written differently, shifted starts, the other method; estimates mapped back "
        "have to agree within the precision of the tolerance, standard errors too (divided by the "
        "root of the factor). Distinct by model and transformations.")
ASSUMPTIONS = ["shifted starts and the other method are compared when both fits succeed and the "
               "likelihood is concave; the other transformations have to keep the success, too"]
TOL = 1e-10


class Spec:
    """
    F         sizes of the features
    axes[k]   features of the axes of the parameter k
    values[k], masks[k]
    etas      lists of terms
    cons      (parameters, weights, level);  regs (parameters, centre, scale)
    """
    back = staticmethod(lambda p: p)
    factor = 1.

    def shape(self, k):
        return tuple(self.F[i] for i in self.axes[k])


def generate(ctx):
    rng = ctx.rng
    s = Spec()
    s.kind = ctx.choice(["poisson", "poisson", "logistic", "nb", "zip", "finite", "nfinite"])
    s.hyper = {"nb": ctx.choice([.5, 1, 3.]), "zip": ctx.choice([1, 1.5, 2.])}.get(s.kind)
    nf = ctx.randint(1, 3)
    s.F = [ctx.randint(2, 4) for _ in range(nf)]
    s.axes, s.values, s.masks, s.cons, s.regs, s.etas = [], [], [], [], [], []
    s.concave = s.kind != "nfinite"

    def param(axes, spread=.5):
        s.axes.append(list(axes))
        v = rng.uniform(-spread, spread, [s.F[i] for i in axes])
        s.values.append(v)
        s.masks.append(np.zeros(v.shape, bool))
        return len(s.axes) - 1

    for e in range(2 if s.kind == "nfinite" else 1):
        terms = []
        k = param([])
        s.values[k] += {"logistic": 0., "nfinite": -.2}.get(s.kind, .3)
        terms.append(("x", k, 1))
        for i in range(nf):
            if ctx.chance(.75):
                k = param([i])
                terms.append(("x", k, ctx.choice([1, 1, -1, .5])))
                how = ctx.choice(["sum", "sum", "fix", "ridge"])
                if how == "sum":
                    w = np.ones(s.F[i]) if ctx.chance(.7) else rng.uniform(.5, 1.5, s.F[i])
                    s.cons.append(([k], [w], float((w * s.values[k]).sum())))
                elif how == "fix":
                    s.masks[k][ctx.randint(0, s.F[i] - 1)] = True
                else:
                    s.regs.append(([k], float(ctx.choice([0, .2])), float(ctx.choice([.5, 1, 2]))))
        if ctx.chance(.35):
            i = ctx.randint(0, nf - 1)
            k = param([])
            terms.append(("vec", k, rng.uniform(-1, 1, s.F[i]), i))
            s.regs.append(([k], 0., 1.))
        if ctx.chance(.3):
            ax = ctx.sample(nf, ctx.randint(0, nf))
            terms.append(("const", rng.uniform(-.3, .3, [s.F[i] for i in ax]), ax))
        if nf > 1 and ctx.chance(.35):
            ax = ctx.sample(nf, 2)
            k = param(ax)
            s.masks[k] = rng.random(s.shape(k)) < ctx.choice([0, 0, .4])
            terms.append(("x", k, 1))
            s.regs.append(([k], 0., float(ctx.choice([.5, 1]))))
        if nf > 1 and s.kind != "nfinite" and ctx.chance(.15):
            i, j = ctx.sample(nf, 2)
            a, b = param([i]), param([j])
            terms.append(("prod", a, b))
            s.regs.append(([a, b], 0., .5))
            s.concave = False
        if s.kind == "nfinite":
            # both rates have all the features
            terms.append(("const", rng.uniform(-.1, .1, s.F), list(range(nf))))
        s.etas.append(terms)
    if sum(v.size for v in s.values) > 24:
        raise Skip()
    s.score = (ctx.choice(["matrix", "vector", "outcome"]), ctx.randint(3, 4), ctx.randint(8, 12)) \
        if s.kind == "nfinite" else ("poisson", ctx.randint(3, 6), 0)
    y = [np.broadcast_to(mean(s, t), s.F) for t in s.etas]
    if s.kind == "nfinite":
        a, b = np.exp(y[0]), np.exp(y[1])
        if (a + b).max() > .9 * s.score[2]:
            raise Skip()
        w, z, st = s.score
        p = {"matrix": lambda: ref_markov(a, b, z, st),
             "vector": lambda: ref_markov_vector(a, b, z, st),
             "outcome": lambda: ref_collapse_matrix(ref_markov(a, b, z, st)[None], WDL)[0]}[w]()
        s.hyper = p.ndim - nf
        s.data = models.sample_data(ctx, s.kind, s.hyper, p, 20, 60)
    elif s.kind == "finite":
        s.hyper = 1
        s.data = models.sample_data(ctx, s.kind, 1, ref_poisson(np.exp(y[0]), s.score[1]), 6, 40)
    else:
        s.data = models.sample_data(ctx, s.kind, s.hyper, y[0], 6, 40)
    s.start = []
    z = ctx.chance(.4) and not s.cons and s.concave
    for v, m in zip(s.values, s.masks):
        s.start.append(np.where(m, v, 0 * v if z else v))
    return s


def mean(s, terms):
    """the linear predictor at the true values"""
    n = len(s.F)
    out = np.zeros([1] * n)

    def place(a, ax):
        o = np.argsort(ax)
        a = np.asarray(a).transpose([int(i) for i in o])
        return a[tuple(slice(None) if i in ax else None for i in range(n))]
    for t in terms:
        if t[0] == "x":
            out = out + t[2] * place(s.values[t[1]], s.axes[t[1]])
        elif t[0] == "vec":
            out = out + s.values[t[1]] * place(t[2], [t[3]])
        elif t[0] == "const":
            out = out + place(t[1], t[2])
        else:
            out = out + place(s.values[t[1]], s.axes[t[1]]) * place(s.values[t[2]], s.axes[t[2]])
    return out


# ---------------------------------------------------------------------------
# library model
# ---------------------------------------------------------------------------
def expression(ctx, s, terms, plain):
    """the predictor; written in different ways unless plain"""
    n = len(s.F)
    parts = []
    for t in terms:
        if t[0] == "x":
            parts.append((X() if s.axes[t[1]] or plain else ctx.choice([X, Scalar])(),
                          [t[1]], list(s.axes[t[1]]), t[2]))
        elif t[0] == "vec":
            parts.append((Vector(t[2]), [t[1]], [t[3]], 1))
        elif t[0] == "const":
            parts.append((Constant(t[1]), [], list(t[2]), 1))
        else:
            p = Product(n).add(X(), t[1], s.axes[t[1]]).add(X(), t[2], s.axes[t[2]])
            parts.append((p, list(range(len(s.axes))), list(range(n)), 1))
    if not plain:
        parts = [parts[k] for k in ctx.perm(len(parts))]
    out, rest = Sum(n), Sum(n)
    nested = False
    for f, pm, fm, w in parts:
        dst = out
        if not plain and ctx.chance(.3):
            dst, nested = rest, True
        if plain or ctx.chance(.5):
            dst.add(f, pm, fm, weight=w)
        elif w == -1 and ctx.chance(.5):
            dst.add(-f, pm, fm)
        else:
            dst.add(w * f, pm, fm)
    if nested:
        # parameters and features of the inner sum in their own order
        out.add(rest, list(range(len(s.axes))), list(range(n)))
    return out


def build(ctx, s, plain):
    if s.kind == "finite":
        m = maxlike.Finite()
        m.model = FPoisson(s.score[1]) @ Exp() @ expression(ctx, s, s.etas[0], plain)
    elif s.kind == "nfinite":
        m = maxlike.NormalizedFinite(dim=s.hyper)
        args = [Exp() @ expression(ctx, s, t, plain) for t in s.etas]
        w, z, st = s.score
        f = MarkovVector(z, st) if w == "vector" else MarkovMatrix(z, st)
        f = f @ args
        m.model = CollapseMatrix() @ f if w == "outcome" else f
    else:
        m = {"poisson": lambda: maxlike.Poisson(), "logistic": lambda: maxlike.Logistic(),
             "nb": lambda: maxlike.NegativeBinomial(s.hyper),
             "zip": lambda: maxlike.ZeroInflatedPoisson(s.hyper)}[s.kind]()
        m.model = expression(ctx, s, s.etas[0], plain)
    cons, regs = list(s.cons), list(s.regs)
    if not plain:
        cons = [cons[k] for k in ctx.perm(len(cons))]
        regs = [regs[k] for k in ctx.perm(len(regs))]
    for pm, w, c in cons:
        m.add_constraint(pm, Linear(w) - c)
    for pm, u, sc in regs:
        m.add_regularization(pm, Quadratic(u, sc))
    for v, k in zip(s.start, s.masks):
        if k.any() or ctx.chance(.3):
            m.add_param(v, k)
        else:
            m.add_param(v)
    return m


# ---------------------------------------------------------------------------
# transformations
# ---------------------------------------------------------------------------
def chain(old, new, fn):
    """fn maps parameter lists of the new problem to those of the old one"""
    b = old.back
    new.back = lambda p: b(fn(p))
    new.factor = old.factor
    return new


def levels(ctx, s):
    i = ctx.randint(0, len(s.F) - 1)
    p = ctx.perm(s.F[i])
    t = copy.copy(s)

    def move(a, ax):
        return np.take(a, p, ax.index(i)) if i in ax else a
    t.values = [move(v, a) for v, a in zip(s.values, s.axes)]
    t.start = [move(v, a) for v, a in zip(s.start, s.axes)]
    t.masks = [move(v, a) for v, a in zip(s.masks, s.axes)]
    t.data = {k: np.take(v, p, i) for k, v in s.data.items()}
    t.etas = [[("vec", q[1], move(q[2], [q[3]]), q[3]) if q[0] == "vec" else
               ("const", move(q[1], q[2]), q[2]) if q[0] == "const" else q
               for q in e] for e in s.etas]
    t.cons = [(pm, [move(a, s.axes[k]) for k, a in zip(pm, w)], c) for pm, w, c in s.cons]
    inv = [int(k) for k in np.argsort(p)]
    return chain(s, t, lambda P: [np.take(v, inv, a.index(i)) if i in a else v
                                  for v, a in zip(P, s.axes)])


def parameters(ctx, s):
    n = len(s.axes)
    p = ctx.perm(n)             # the new parameter k is the old p[k]
    at = [int(k) for k in np.argsort(p)]
    t = copy.copy(s)
    for name in ("values", "start", "masks", "axes"):
        setattr(t, name, [getattr(s, name)[k] for k in p])
    t.etas = [[(q[0], at[q[1]], at[q[2]]) if q[0] == "prod" else
               q if q[0] == "const" else (q[0], at[q[1]]) + tuple(q[2:]) for q in e]
              for e in s.etas]
    t.cons = [([at[k] for k in pm], w, c) for pm, w, c in s.cons]
    t.regs = [([at[k] for k in pm], u, sc) for pm, u, sc in s.regs]
    return chain(s, t, lambda P: [P[k] for k in at])


def features(ctx, s):
    n = len(s.F)
    p = ctx.perm(n)             # the new feature k is the old p[k]
    at = [int(k) for k in np.argsort(p)]
    t = copy.copy(s)
    t.F = [s.F[k] for k in p]
    t.axes = [[at[k] for k in a] for a in s.axes]
    t.data = {k: v.transpose(p + list(range(n, v.ndim))) for k, v in s.data.items()}
    t.etas = [[("vec", q[1], q[2], at[q[3]]) if q[0] == "vec" else
               ("const", q[1], [at[k] for k in q[2]]) if q[0] == "const" else q
               for q in e] for e in s.etas]
    return chain(s, t, lambda P: P)


def split(ctx, s):
    """cells split over a further feature"""
    n = len(s.F)
    if n > 3 or int(np.prod(s.F)) > 200 or s.kind == "nfinite" and n > 2:
        return s
    k = ctx.randint(2, 3)
    pos = ctx.randint(0, n)
    at = [i if i < pos else i + 1 for i in range(n)]
    t = copy.copy(s)
    t.F = list(s.F)
    t.F.insert(pos, k)
    t.axes = [[at[i] for i in a] for a in s.axes]
    u = ctx.rng.uniform(0, 1, (k,) + tuple(s.F))
    if ctx.chance(.3):
        u = (u == u.max(0))     # all the observations in one of them
    t.data = {}
    for name, v in s.data.items():
        w = u if ctx.chance(.5) or s.kind == "logistic" else ctx.rng.uniform(0, 1, u.shape)
        w = w / w.sum(0)
        w = w.reshape(w.shape + (1,) * (v.ndim - n))
        t.data[name] = np.moveaxis(w * v[None], 0, pos)
    t.etas = [[("vec", q[1], q[2], at[q[3]]) if q[0] == "vec" else
               ("const", q[1], [at[i] for i in q[2]]) if q[0] == "const" else q
               for q in e] for e in s.etas]
    if s.kind == "nfinite":
        # both rates have all the features
        t.etas = [e + [("const", np.zeros(t.F), list(range(n + 1)))] for e in t.etas]
    return chain(s, t, lambda P: P)


def scale(ctx, s):
    c = ctx.choice([2., 3., .5, 2.5, 10., 1e-3, 1e-4, 1e3, 1e5])
    t = copy.copy(s)
    t.data = {k: v * c for k, v in s.data.items()}
    t.regs = [(pm, u, sc / c ** .5) for pm, u, sc in s.regs]
    chain(s, t, lambda P: P)
    t.factor = s.factor * c
    return t


def rewrite(ctx, s):
    return chain(s, copy.copy(s), lambda P: P)


def shift(ctx, s):
    """another start, on the constraints"""
    t = copy.copy(s)
    t.start = []
    for k, (v, m) in enumerate(zip(s.start, s.masks)):
        d = ctx.rng.uniform(-.5, .5, np.shape(v))
        for pm, w, c in s.cons:
            if pm == [k]:
                f = ~m
                w_ = np.asarray(w[0])
                d = np.where(f, d, 0)
                if (w_[f] ** 2).sum() == 0:
                    d = d * 0
                else:
                    d = d - np.where(f, w_, 0) * (w_ * d).sum() / (w_[f] ** 2).sum()
        t.start.append(np.where(m, v, v + d))
    return chain(s, t, lambda P: P)


SAME = {"levels": levels, "parameters": parameters, "features": features, "split": split,
        "scale": scale, "rewrite": rewrite}


def run(m, s, **kw):
    try:
        m.fit(tol=TOL, **kw, **s.data)
    except Exception as e:
        return e
    return None


def estimates(m):
    return [np.array(np.ma.getdata(p), dtype=float) for p in m.get_params()]


def errors(m):
    return [np.ma.filled(np.ma.array(e, dtype=float), np.nan) for e in m.std_error()]


def transformed(ctx):
    s = generate(ctx)
    base = build(ctx, s, True)
    r = run(base, s, max_steps=60)
    ctx.note(s.kind, s.hyper, "features", s.F, "axes", s.axes, "terms",
             [[q[:2] for q in e] for e in s.etas], "cons", [c[0] for c in s.cons],
             "regs", [c[0] for c in s.regs])
    if r is not None:
        ctx.event("base fit failed: %s" % type(r).__name__)
        raise Skip()
    est = estimates(base)
    if max(np.abs(v).max(initial=0) for v in est) > 6:
        raise Skip()
    se = errors(base)
    sd = np.concatenate([e.ravel() for e in se])
    sd = sd[np.isfinite(sd)]
    if not sd.size or len(sd) != sum(int((~k).sum()) for k in s.masks):
        raise Skip()
    if sd.max() > 3:
        raise Skip()
    n = s.data["N"].sum()
    f = abs(base.g(base.params))
    prec = np.sqrt(2 * TOL * n * (f + 1e-3))    # in standard errors
    names = [sorted(SAME)[k] for k in ctx.sample(len(SAME), ctx.randint(1, 4))]
    t = s
    for name in names:
        t = SAME[name](ctx, t)
    other = "shift" if ctx.chance(.25) else None
    method = "newton"
    if ctx.chance(.25):
        method = "broyden"
    if not s.concave:
        other, method = None, "newton"
    if other:
        t = shift(ctx, t)
    ctx.note(names, other, method)
    ctx.sig(s.kind, tuple(s.F), tuple(names), other, method)
    m = build(ctx, t, False)
    r = run(m, t, max_steps=60 if method == "newton" else 300, method=method)
    if r is not None:
        if other is None and method == "newton":
            raise Violation("transformed problem not solved", "%s: %s" % (
                type(r).__name__, str(r)[:200]))
        ctx.event("failed fit: %s %s" % (other, method))
        return
    for name in names + [other, method]:
        ctx.event("compared: %s" % name)
    # constants of the objective do not always scale
    prec = np.sqrt(2 * TOL * n * (max(f, abs(m.g(m.params))) + 1e-3))
    if prec > .02:
        ctx.event("imprecise")
        return
    got = t.back(estimates(m))
    # the objective is reached, too
    b = s.regs
    for k, (v, w, e, mask) in enumerate(zip(got, est, se, s.masks)):
        ctx.check(v.shape == w.shape, "shape of the estimates")
        ctx.check(np.array_equal(v[mask], w[mask]), "fixed entries")
        # (directions with the largest standard error dominate)
        lim = 6 * prec * sd.max() * min(2, max(1, t.factor ** -.5)) + 1e-7
        ctx.check(np.all(np.abs(v - w)[~mask] <= lim), "estimates",
                  lambda: "parameter %d: %s instead of %s (%g)" % (k, v, w, lim))
    if method == "newton":
        ge = t.back(errors(m))
        lim = 1e-6 + 40 * prec * sd.max() * min(2, max(1, t.factor ** -.5))
        for k, (v, w, mask) in enumerate(zip(ge, se, s.masks)):
            w = w / t.factor ** .5
            tiny = (w < 1e-3 * sd.max()) & (v < 1e-2 * sd.max())
            ok = (np.abs(v - w) <= lim * (np.abs(w) + 1e-3 * sd.max())) | mask | tiny
            ctx.check(np.all(ok), "standard errors",
                      lambda: "parameter %d: %s instead of %s" % (k, v, w))


WORKLOADS = [("transformed", transformed, 800, 9000)]
