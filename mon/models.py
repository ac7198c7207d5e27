"""
Random likelihood models of maxlike with independent references of their
objective function.
"""
import numpy as np
from scipy.special import gammaln
import maxlike
from maxlike.func import (
    X, Constant, Scalar, Vector, Linear, Quadratic, Exp, ArcTan, Sum, Product, Collapse,
    Poisson as FPoisson, NegativeBinomial as FNegativeBinomial, MarkovMatrix,
    MarkovVector, CollapseMatrix)
from .core import Skip, Violation
from .exprs import E, Gen, put, expit, decided, ref_poisson, ref_lognb, ref_markov, \
    ref_markov_vector, ref_collapse_matrix, WDL

KINDS = ["poisson", "zip", "logistic", "nb", "finite", "nfinite"]


def ref_like(kind, y, data, hyper):
    """
    log-likelihood up to constants, y has the axes (batch, features, dims) and
    can be complex
    """
    N = data["N"][None]
    if kind == "poisson":
        v = data["X"] * y - N * np.exp(y)
    elif kind == "zip":
        m = np.exp(y)
        # log of e^m + s - 1
        v = data["X"] * y - N * (m + np.log(1 + (hyper - 1) * np.exp(-m)))
        if hyper > 0:
            v = v + data["Z"] * np.log(hyper)
    elif kind == "logistic":
        v = data["X"] * np.log(expit(y)) + (N - data["X"]) * np.log(expit(-y))
    elif kind == "nb":
        v = data["X"] * y - (data["X"] + hyper * N) * np.log(hyper + np.exp(y))
    elif kind == "finite":
        d = hyper
        z = y.sum(tuple(range(y.ndim - d, y.ndim)), keepdims=True)
        v = N * np.log(y / z)
    else:
        v = N * np.log(y)
    return v.sum(tuple(range(1, v.ndim)))


def constant_like(kind, data, hyper):
    """the part of the library's objective that doesn't depend on parameters"""
    if kind in ("poisson", "zip"):
        return -gammaln(data["X"] + 1).sum()
    if kind == "nb":
        r = hyper
        X = data["X"]
        return (gammaln(X + r) - gammaln(X + 1) + r * np.log(r) - gammaln(r)).sum()
    return 0.


class Model:
    """
    kind, hyper   model class and its hyper-parameter (s, scale, dim)
    e             expression (E) with reference
    params        initial values, masks (True = fixed)
    cons, regs    lists of (param_map, function, reference)
    data          dict of arrays
    """

    def __init__(self, kind, hyper, e, params, masks, cons, regs, data):
        self.kind, self.hyper, self.e = kind, hyper, e
        self.params, self.masks = params, masks
        self.cons, self.regs, self.data = cons, regs, data
        self.truth = None
        self.concave = False
        self.linear = True      # all constraints are linear
        self.valid = lambda flat: True      # the model is defined

    # ---------------------------------------------------------------- library
    def empty(self):
        if self.kind == "poisson":
            m = maxlike.Poisson()
        elif self.kind == "zip":
            m = maxlike.ZeroInflatedPoisson(self.hyper)
        elif self.kind == "logistic":
            m = maxlike.Logistic()
        elif self.kind == "nb":
            m = maxlike.NegativeBinomial(self.hyper)
        elif self.kind == "finite":
            m = maxlike.Finite() if self.hyper == 1 else maxlike.Finite(dim=self.hyper)
        else:
            m = maxlike.NormalizedFinite(dim=self.hyper)
        return m

    def build(self, params=None, order=None, cons=None, regs=None):
        """cons, regs: how many of the constraints and penalties, all by default"""
        m = self.empty()
        m.model = self.e.f
        self.add(m, self.cons[:cons], self.regs[:regs])
        self.start(m, params)
        return m

    def add(self, m, cons=(), regs=()):
        for pm, f, _ in cons:
            m.add_constraint(pm if len(pm) > 1 else pm[0], f)
        for pm, f, _ in regs:
            m.add_regularization(pm if len(pm) > 1 else pm[0], f)

    def start(self, m, params=None):
        m.reset_params()
        for p, k in zip(self.params if params is None else params, self.masks):
            if k is None:
                m.add_param(np.array(p))
            else:
                m.add_param(np.array(p), np.array(k))

    def load(self, m):
        """gives the data to the model without a step"""
        try:
            m.fit(max_steps=0, **self.data)
        except maxlike.maxlike_base.ConvergenceError:
            pass

    # -------------------------------------------------------------- reference
    def mask(self):
        """fixed entries, flat"""
        return np.concatenate([np.zeros(np.size(p), bool) if k is None else
                               np.broadcast_to(k, np.shape(p)).ravel()
                               for p, k in zip(self.params, self.masks)])

    def flat(self, params=None):
        return np.concatenate([np.ravel(np.asarray(p, dtype=float)) for p in
                               (self.params if params is None else params)])

    def split(self, flat):
        """flat (batch, entries) -> list of (batch, shape)"""
        out, k = [], 0
        for p in self.params:
            n = int(np.size(p))
            out.append(flat[:, k:k + n].reshape((flat.shape[0],) + np.shape(p)))
            k += n
        return out

    def unflat(self, flat):
        return [a[0] for a in self.split(np.asarray(flat)[None])]

    def total(self, flat):
        """penalised log-likelihood, up to the constant; batch"""
        p = self.split(flat)
        v = ref_like(self.kind, self.e.ref(p), self.data, self.hyper)
        for pm, _, ref in self.regs:
            v = v - ref([p[k] for k in pm])
        return v + np.zeros(flat.shape[0])

    def mean(self, flat):
        """the objective as the library defines it"""
        v = self.total(np.asarray(flat, dtype=float)[None])[0]
        return (v + constant_like(self.kind, self.data, self.hyper)) / self.data["N"].sum()

    def con(self, flat):
        """constraint values (batch, constraints)"""
        p = self.split(flat)
        if not self.cons:
            return np.zeros((flat.shape[0], 0), flat.dtype)
        return np.stack([ref([p[k] for k in pm]) + np.zeros(flat.shape[0])
                         for pm, _, ref in self.cons], 1)

    def grad(self, x, fn=None):
        """exact gradient (batch, entries) of total"""
        x = np.atleast_2d(x)
        B, n = x.shape
        z = (x[:, None, :] + 1e-30j * np.eye(n)[None]).reshape(B * n, n)
        v = decided((fn or self.total)(z))
        return (v.imag / 1e-30).reshape((B, n) + v.shape[1:])

    def hess(self, x, step=1e-3, fn=None):
        n = len(x)
        sh = np.concatenate([x + c * step * np.eye(n) for c in (2, 1, -1, -2)])
        g = self.grad(sh, fn)
        g = g.reshape((4, n) + g.shape[1:])
        h = (-g[0] + 8 * g[1] - 8 * g[2] + g[3]) / (12 * step)
        return .5 * (h + h.swapaxes(0, 1))

    def jac(self, x):
        """gradients of the constraints (constraints, entries)"""
        if not self.cons:
            return np.zeros((0, len(x)))
        return self.grad(x, self.con)[0].T


# ---------------------------------------------------------------------------
# data
# ---------------------------------------------------------------------------
def sample_data(ctx, kind, hyper, y, lo=4, hi=30, empty=0.1, single=False):
    """draws observations with the means / probabilities of y (features, dims)"""
    rng = ctx.rng
    if kind in ("finite", "nfinite"):
        d = hyper
        F = y.shape[:y.ndim - d]
        p = np.abs(y).reshape(F + (-1,))
        p = p / p.sum(-1, keepdims=True)
        n = np.ones(F, int) if single else rng.integers(lo, hi + 1, F)
        if not single:
            n = np.where(rng.random(F) < empty, 0, n)
        if n.sum() == 0:
            n.flat[0] = 1
        N = np.zeros(p.shape)
        for idx in np.ndindex(*F):
            N[idx] = rng.multinomial(n[idx], p[idx])
        return {"N": N.reshape(y.shape).astype(float)}
    F = y.shape
    n = np.ones(F, int) if single else rng.integers(lo, hi + 1, F)
    if not single:
        n = np.where(rng.random(F) < empty, 0, n)
    if n.sum() == 0:
        n.flat[0] = 1
    if kind == "poisson":
        X = rng.poisson(n * np.exp(y))
        return {"N": n.astype(float), "X": X.astype(float)}
    if kind == "logistic":
        X = rng.binomial(n, expit(y))
        return {"N": n.astype(float), "X": X.astype(float)}
    if kind == "nb":
        m = np.exp(y)
        lam = rng.gamma(np.maximum(n * hyper, 1e-12), m / hyper)
        X = np.where(n > 0, rng.poisson(lam), 0)
        return {"N": n.astype(float), "X": X.astype(float)}
    # zero inflated
    m = np.exp(y)
    X = np.zeros(F)
    Z = np.zeros(F)
    for idx in np.ndindex(*F):
        k = np.arange(60)
        p = np.exp(k * np.log(m[idx]) - gammaln(k + 1))
        p[0] = hyper
        o = rng.choice(60, n[idx], p=p / p.sum())
        X[idx], Z[idx] = o.sum(), (o == 0).sum()
    return {"N": n.astype(float), "X": X, "Z": Z}


def hyper_of(ctx, kind):
    if kind == "zip":
        if ctx.chance(.3):
            return ctx.choice([0, 0., float(10 ** ctx.rng.uniform(-2, 1.5)), 1 + ctx.choice([1e-3, -5e-4, 1e-2, -1e-6])])
        return ctx.choice([1, 2, 1.5, 3., .5, 5])
    if kind == "nb":
        if ctx.chance(.25):
            return float(10 ** ctx.rng.uniform(-1, 2))
        return ctx.choice([1, 1, .5, 2.5, 4])
    return None


# ---------------------------------------------------------------------------
# well posed regression models
# ---------------------------------------------------------------------------
def zero(p):
    return np.zeros((1,))


def linear_constraint(ctx, pm, shapes):
    """sum of the entries (weighted by the parameter), with value zero"""
    if len(pm) == 1 and ctx.chance(.6):
        w = [1.]
    else:
        w = [float(ctx.choice([1, 1, 1, .5, 2])) for _ in pm]
    f = Linear(w)
    ref = lambda p, w=w: sum(a * q.sum(tuple(range(1, q.ndim))) for a, q in zip(w, p))
    return (list(pm), f, ref)


def ridge(ctx, pm, strength=None):
    u = float(ctx.choice([0, 0, .2, -.3]))
    s = float(ctx.choice([.5, 1, 2])) if strength is None else strength
    f = Quadratic(u, s)
    ref = lambda p, u=u, s=s: sum(
        (((q - u) / s) ** 2).sum(tuple(range(1, q.ndim))) for q in p)
    return (list(pm), f, ref)


def scalar_function(ctx, P, nonlinear=True):
    """(param_map, function, reference) with a single value"""
    kind = ctx.choice(["lin", "lin", "quad", "sumquad", "expr", "collapse"]
                      if nonlinear else ["lin"])
    k = ctx.randint(1, min(3, len(P)))
    pm = ctx.sample(len(P), k)
    if ctx.chance(.15):
        pm = pm + [ctx.choice(pm)]
    if kind == "lin":
        ws = [float(ctx.choice([1, -1, .5, 2])) for _ in pm]
        if ctx.chance(.4):
            ws = [ctx.rng.uniform(-1, 1, P[q]) for q in pm]
        ref = lambda p, ws=ws: sum((w * a).sum(tuple(range(1, a.ndim)))
                                   for w, a in zip(ws, p))
        if ctx.chance(.4):
            c = float(ctx.choice([1, -.5, 2]))
            return pm, Linear(ws) - c, lambda p: ref(p) - c
        return pm, Linear(ws), ref
    if kind == "quad":
        return ridge(ctx, pm)
    if kind == "sumquad":
        a, b = ridge(ctx, [0]), ridge(ctx, [0])
        i, j = ctx.randint(0, len(pm) - 1), ctx.randint(0, len(pm) - 1)
        s = Sum(0).add(a[1], i, []).add(b[1], j, [], weight=.5)
        return pm, s, lambda p: a[2]([p[i]]) + .5 * b[2]([p[j]])
    g = Gen(ctx)
    Q = [P[q] for q in pm]
    # features of the sizes of the parameters, all of them collapsed
    F = list(max(Q, key=len)) or [2]
    e = g.full(F, Q, 0)
    ax = tuple(range(1, 1 + len(F)))
    f = Collapse(e.f)
    ref = lambda p: e.ref(p).sum(ax)
    if kind == "expr":
        return pm, Exp() @ (.2 * ArcTan()) @ f, \
            lambda p: np.exp(.2 * np.arctan(ref(p)))
    return pm, f, ref


class Eta:
    """linear predictor: sum of effects of parameters on features"""

    def __init__(self, F):
        self.F = F
        self.terms = []     # (function, parameters, features, weight, reference)

    def add(self, f, pm, fm, w, ref):
        self.terms.append((f, pm, fm, w, ref))

    def expr(self, ctx, order):
        """order[k]: position of the parameter k among the stored ones"""
        N = len(self.F)
        s = Sum(N)
        parts = []
        for k in ctx.perm(len(self.terms)):
            f, pm, fm, w, ref = self.terms[k]
            at = [order[q] for q in pm]
            if w == 1:
                s.add(f, at[0] if len(at) == 1 else at,
                      fm[0] if len(fm) == 1 and ctx.chance(.5) else list(fm))
            else:
                s.add(f, at[0] if len(at) == 1 else at, list(fm), weight=w)
            parts.append((w, ref, at, list(fm)))

        def value(p):
            out = np.zeros((1,) + tuple(self.F))
            for w, ref, at, fm in parts:
                out = out + w * put(ref([p[k] for k in at]), len(fm), 0, fm, N, [], 0)
            return out
        text = "+".join("%s*%s p%s f%s" % (w, type(f).__name__, [order[q] for q in pm], fm)
                        for f, pm, fm, w, ref in self.terms)
        return E(s, value, N, 0, text)


def well_posed(ctx, kind=None, masks=True, max_feat=3, cons=True, regs=True,
               covariates=True, size=(4, 30), big=4, layout=None, steps=(8, 12)):
    """
    Identifiable regression: intercept, effects of levels with a constraint, a
    fixed level or a penalty, covariates, offsets, interactions with a penalty
    """
    rng = ctx.rng
    kind = kind or ctx.choice(["poisson", "poisson", "logistic", "nb", "zip", "finite",
                               "nfinite"])
    hyper = hyper_of(ctx, kind)
    if kind == "zip":
        hyper = ctx.choice([1, 1.5, 2, 3, 1, 1.5, 2, 3, 0, .4])
    nf = ctx.randint(1, max_feat)
    F = [ctx.randint(2, big) for _ in range(nf)]
    if ctx.chance(.06):
        F = F[:2]
        nf = len(F)
        F[-1] = ctx.randint(8, 18)
    joint = kind == "nfinite"
    shapes, values, fixed, rcons, rregs = [], [], [], [], []

    def param(shape, lo=-.5, hi=.5):
        shapes.append(tuple(shape))
        values.append(rng.uniform(lo, hi, shape))
        fixed.append(np.zeros(shape, bool))
        return len(shapes) - 1

    def identify(k):
        """one condition on the level of the parameter k"""
        how = ctx.choice((["sum0"] * 3 if cons else []) + ["fix"] * (2 if masks else 0) +
                         (["ridge"] * 2 if regs else []) or ["ridge"])
        if how == "sum0":
            values[k] -= values[k].mean()
            rcons.append(([k], None))
        elif how == "fix":
            fixed[k].flat[ctx.randint(0, fixed[k].size - 1)] = True
        else:
            rregs.append([k])

    def effects(eta, base, share=None):
        """fills a linear predictor; share: parameters to reuse elsewhere"""
        if base is not None:
            k = param(())
            values[k] += base
            eta.add(ctx.choice([X, Scalar])() if True else None, [k], [], 1,
                    lambda p: p[0])
        for i in range(nf):
            if ctx.chance(.75):
                k = param((F[i],))
                identify(k)
                eta.add(X(), [k], [i], ctx.choice([1, 1, -1, .5]), lambda p: p[0])
        same = [(i, j) for i in range(nf) for j in range(nf) if i != j and F[i] == F[j]]
        if same and ctx.chance(.3):
            # one parameter for two features, with opposite signs
            i, j = ctx.choice(same)
            k = param((F[i],))
            if base is not None:
                rregs.append([k]) if regs and ctx.chance(.5) else \
                    rcons.append(([k], None)) if cons else rregs.append([k])
            else:
                rregs.append([k])
            eta.add(X(), [k], [i], 1, lambda p: p[0])
            eta.add(X(), [k], [j], ctx.choice([-1, .5]), lambda p: p[0])
            if fixed[k].any() is False and regs is False:
                fixed[k].flat[0] = True
            ambiguous.append(k)
        if covariates and ctx.chance(.4):
            i = ctx.randint(0, nf - 1)
            v = rng.uniform(-1, 1, F[i])
            k = param(())
            rregs.append([k])   # may be aliased with the levels
            eta.add(Vector(v), [k], [i], 1, lambda p, v=v: p[0][:, None] * v)
        if ctx.chance(.3):
            fm = ctx.sample(nf, ctx.randint(0, nf))
            c = rng.uniform(-.3, .3, [F[i] for i in fm])
            eta.add(Constant(c), [], fm, 1, lambda p, c=c: c[None])
        if nf > 1 and regs and ctx.chance(.3):
            fm = ctx.sample(nf, 2)
            k = param([F[i] for i in fm])
            rregs.append([k])
            eta.add(X(), [k], fm, 1, lambda p: p[0])

        if nf > 2 and regs and np.prod(F[:3]) <= 12 and ctx.chance(.4):
            fm = ctx.sample(nf, 3)
            k = param([F[i] for i in fm])
            rregs.append([k])
            if masks and ctx.chance(.6):
                fixed[k] |= rng.random(fixed[k].shape) < .4
            eta.add(X(), [k], fm, ctx.choice([1, -1]), lambda p: p[0])

    ambiguous = []
    etas = []
    if joint:
        for _ in range(2):
            eta = Eta(F)
            effects(eta, -.2)
            # (both arguments need the same shape)
            c = rng.uniform(-.1, .1, F)
            eta.add(Constant(c), [], list(range(nf)), 1, lambda p, c=c: c[None])
            etas.append(eta)
    else:
        eta = Eta(F)
        effects(eta, {"logistic": 0., "finite": .2}.get(kind, .3))
        etas.append(eta)
    for k in ambiguous:
        if [k] not in rregs:
            rregs.append([k])
    n = sum(v.size for v in values)
    if n > 24:
        raise Skip()
    if masks and ctx.chance(.35):
        # further fixed entries
        for k in range(len(fixed)):
            constrained = any(k in pm for pm, _ in rcons)
            if constrained:
                if fixed[k].size > 2 and ctx.chance(.4):
                    fixed[k].flat[ctx.randint(0, fixed[k].size - 1)] = True
            elif fixed[k].ndim and ctx.chance(.5):
                fixed[k] |= rng.random(fixed[k].shape) < .5
            elif ctx.chance(.25):
                fixed[k][...] = True
        if all(m.all() for m in fixed):
            raise Skip()
    # order of the stored parameters
    order = ctx.perm(len(shapes))            # position of the parameter k
    where = list(np.argsort(order))
    truth = [values[k] for k in where]
    mask = [fixed[k] for k in where]
    C = [linear_constraint(ctx, [order[k] for k in pm], None) for pm, _ in rcons]
    if len(C) > 1 and ctx.chance(.3) and len({len(c[0]) for c in C}) == 1:
        C = [(c[0],) + C[0][1:] for c in C]     # one function, several constraints
    R = []
    while rregs:
        pm = rregs.pop(0)
        if rregs and ctx.chance(.3):
            pm = pm + rregs.pop(0)
        pm = [order[k] for k in pm]
        r = ridge(ctx, pm)
        if R and ctx.chance(.25):
            # the same function for other parameters
            r = (r[0],) + ctx.choice(R)[1:]
        R.append(r)
    es = [eta.expr(ctx, order) for eta in etas]
    al = list(range(len(truth)))
    if kind == "finite":
        e0, hyper = es[0], 1
        s = ctx.randint(3, 6)
        e = E(FPoisson(s) @ Exp() @ e0.f, lambda p: ref_poisson(np.exp(e0.ref(p)), s),
              nf, 1, "Poisson(%d)@Exp@(%s)" % (s, e0.text))
    elif joint:
        a, b = es
        which = ctx.choice(["matrix", "vector", "outcome"])
        s, steps = ctx.randint(3, 4 if steps[1] > 8 else 3), ctx.randint(*steps)
        args = [Exp() @ a.f, Exp() @ b.f]
        ra = lambda p: (np.exp(a.ref(p)), np.exp(b.ref(p)))
        if which == "vector":
            e = E(MarkovVector(s, steps) @ args,
                  lambda p: ref_markov_vector(*ra(p), s, steps), nf, 1, "")
        elif which == "matrix":
            e = E(MarkovMatrix(s, steps) @ args, lambda p: ref_markov(*ra(p), s, steps),
                  nf, 2, "")
        else:
            e = E(CollapseMatrix() @ MarkovMatrix(s, steps) @ args,
                  lambda p: ref_collapse_matrix(ref_markov(*ra(p), s, steps), WDL), nf, 1, "")
        hyper = e.d
        e.text = "%s(%d,%d)@[%s | %s]" % (which, s, steps, a.text, b.text)
    else:
        e = es[0]
    y = e.ref([np.asarray(v)[None] for v in truth])[0]
    y = np.broadcast_to(y, tuple(F) + y.shape[nf:])
    data = sample_data(ctx, kind, hyper, y, *size)
    masks_ = [None if not m.any() and ctx.chance(.7) else m for m in mask]
    # start: free entries at zero or close to the truth, constraints hold
    start = []
    zero_ = ctx.chance(.6)
    for v, m in zip(truth, mask):
        w = np.zeros_like(v) if zero_ else v + rng.uniform(-.3, .3, v.shape)
        start.append(np.where(m, v, w))
    mod = Model(kind, hyper, e, start, masks_, C, R, data)
    mod.truth = truth
    mod.F = F
    if joint:
        def valid(flat):
            p = mod.split(np.asarray(flat, dtype=float)[None])
            return bool(np.all(ra(p)[0] + ra(p)[1] < .98 * steps))
        mod.valid = valid
    mod.concave = kind in ("poisson", "logistic", "nb", "zip", "finite")
    ctx.note(kind, hyper, "features", F, "params", [v.shape for v in truth], "masks",
             [None if m is None else m.astype(int).tolist() for m in masks_], e.text,
             "constraints", [c[0] for c in C], "regs", [r[0] for r in R],
             "N", data["N"].sum())
    ctx.sig(kind, tuple(F), tuple(v.shape for v in truth), e.text)
    return mod


def far(ctx, mod, lo=4, hi=12):
    """a start with free scalars that are many steps away, or None"""
    start, moved = [], False
    used = {k for pm, _, _ in mod.cons for k in pm}
    for k, (p, w) in enumerate(zip(mod.params, mod.masks)):
        if np.ndim(p) == 0 and k not in used and (w is None or not np.any(w)):
            p = p + ctx.rng.uniform(lo, hi) * (-1 if mod.kind == "logistic" else 1)
            moved = True
        start.append(np.array(p))
    return start if moved and mod.valid(mod.flat(start)) else None


# ---------------------------------------------------------------------------
# independent optimiser
# ---------------------------------------------------------------------------
def optimum(mod, x0=None, steps=60):
    """
    Maximum over the free entries of the penalised log-likelihood on the
    linear constraints, with exact derivatives of the reference (null space
    Newton method with backtracking). Returns (flat parameters, ok).
    """
    x = mod.flat() if x0 is None else np.array(x0, dtype=float)
    free = np.flatnonzero(~mod.mask())
    J = mod.jac(x)[:, free]
    c = mod.con(x[None])[0]
    if len(c):
        dx, *_ = np.linalg.lstsq(J, -c, rcond=None)
        x[free] += dx
        if np.max(np.abs(mod.con(x[None])[0])) > 1e-9:
            return x, False     # the constraints can't be met
        u, s, vt = np.linalg.svd(J)
        rank = int((s > 1e-10 * max(1, s.max())).sum())
        Z = vt[rank:].T
    else:
        Z = np.eye(len(free))
    if Z.shape[1] == 0:
        return x, True
    f = mod.total(x[None])[0]
    for _ in range(steps):
        g = Z.T @ mod.grad(x)[0][free]
        H = Z.T @ mod.hess(x)[np.ix_(free, free)] @ Z
        w, V = np.linalg.eigh(H)
        w = -np.maximum(np.abs(w), 1e-10)
        d = -(V @ ((V.T @ g) / w))
        t, gain = 1., float(g @ d)
        while t > 1e-10:
            y = x.copy()
            y[free] += Z @ (t * d)
            fy = mod.total(y[None])[0]
            if np.isfinite(fy) and fy >= f + 1e-4 * t * gain - 1e-12 * abs(f):
                break
            t *= .5
        else:
            return x, abs(gain) < 1e-9 * (1 + abs(f))
        x, f = y, fy
        if gain < 1e-13 * (1 + abs(f)) and t == 1.:
            return x, True
    return x, False


def reduced(mod, x):
    """free entries, null space of the constraints, reduced gradient and Hessian"""
    free = np.flatnonzero(~mod.mask())
    g = mod.grad(x)[0][free]
    H = mod.hess(x)[np.ix_(free, free)]
    J = mod.jac(x)[:, free]
    if len(J):
        u, s, vt = np.linalg.svd(J)
        rank = int((s > 1e-10 * max(1, s.max())).sum())
        Z = vt[rank:].T
    else:
        Z = np.eye(len(free))
    return free, Z, Z.T @ g, Z.T @ H @ Z, J


def rare(ctx):
    """finite models with outcomes of any rarity; one rate per cell, closed forms"""
    kind = ctx.choice(["finite", "nfinite"])
    F, U = ctx.randint(1, 4), ctx.randint(2, 5)
    rate = 10. ** ctx.rng.uniform(ctx.choice([-9, -4, -1]), 1, F)
    x = np.arange(U)
    N = ctx.rng.integers(0, ctx.choice([3, 3, 500]), (F, U)).astype(float)
    N[0, -1] += 1
    if kind == "finite":
        f, ref = maxlike.func.Poisson(U), lambda p: ref_poisson(p[0], U)
        v = ref_poisson(rate, U)
        z = v.sum(-1)
        dz = (x * v).sum(-1) / rate / z
        ddz = (x * (x - 1) * v).sum(-1) / rate ** 2 / z
        like = np.log(v) - np.log(z)[:, None]
        g = x / rate[:, None] - dz[:, None]
        h = -x / rate[:, None] ** 2 - (ddz - dz ** 2)[:, None]
    else:
        r = ctx.choice([.3, 1., 2.5, 40.])
        f = maxlike.func.NegativeBinomial(U, r)
        ref = lambda p: np.exp(ref_lognb(p[0], U, r))
        m = rate[:, None]
        like = ref_lognb(rate, U, r)
        g = x / m - (x + r) / (r + m)
        h = (x + r) / (r + m) ** 2 - x / m ** 2
    mod = Model(kind, 1, E(f, ref, 1, 1, kind), [rate], [None], [], [], {"N": N})
    ctx.note(kind, "rates", rate.tolist(), "N", N.tolist())
    ctx.sig(kind, np.round(np.log(rate), 1).tolist(), N.tolist())
    return mod, like, g, h
