"""C06: gradients vs exact derivatives of the formula and of the called value."""
import numpy as np
from maxlike.func import *
from .core import Skip
from .dense import *
from .exprs import *
from .c05 import setup, setup_mixed

RULE = ("random expression trees as for C05, plus all leaf, count, score, tennis and collapse "
        "functions; gradient blocks of every parameter compared entry by entry with complex-step "
        "derivatives of an independent evaluation of the formula, and with differences of the "
        "called value along random directions. Distinct by expression and shapes.")


def grads(ctx, e, params, which="grad"):
    """list of gradient tensors, through different entries of the interface"""
    if which == "grad":
        return ctx.call("grad", e.f.grad, params)
    if which == "eval":
        return ctx.call("eval", e.f.eval, params)[1]
    return [ctx.call("grad", e.f.grad, params, i) for i in range(len(params))]


def judge_grads(ctx, e, params, g, ref, kind, rtol=1e-8):
    ctx.check(len(g) == len(params), kind + ":structure")
    scale = max(1., float(np.max(np.abs(ref_value(e, params)))))
    for k, (p, s) in enumerate(zip(params, slices(params))):
        a = ref[s].reshape(np.shape(p) + ref.shape[1:])
        judge(ctx, g[k], a, (np.ndim(p), 0, e.n, e.d), kind, rtol=rtol)
        ctx.event("nonzero blocks", int(np.any(a != 0)))


def differences(ctx, e, params, g, kind):
    """along a random direction, using nothing but the called value"""
    dirs = [ctx.rng.choice([-1., 1.], np.shape(p)) * ctx.rng.uniform(.5, 1, np.shape(p))
            for p in params]
    want = 0.
    for p, t, d in zip(params, g, dirs):
        a = align(dense_of(t), groups(t), (np.ndim(p), 0, e.n, e.d))
        a = np.broadcast_to(a, np.shape(p) + a.shape[np.ndim(p):])
        want = want + np.tensordot(d, a, np.ndim(p))
    def slope(h):
        v = []
        for c in (2, 1, -1, -2):
            t = e.f([p + c * h * d for p, d in zip(params, dirs)])
            v.append(align(dense_of(t), groups(t), (0, 0, e.n, e.d)))
        scale.append(max(1., float(np.max(np.abs(v[0])))))
        return (-v[0] + 8 * v[1] - 8 * v[2] + v[3]) / (12 * h)
    scale = []
    num, fine = slope(1e-3), slope(5e-4)
    # the disagreement of both steps bounds the error of the differences
    err = float(np.max(np.abs(num - fine))) + 1e-9 * max(scale)
    if err > 1e-3 * max(1., float(np.max(np.abs(fine)))):
        ctx.event("differences not conclusive")
        return
    shape = np.broadcast_shapes(num.shape, np.shape(want))
    ctx.close(np.broadcast_to(want, shape), np.broadcast_to(fine, shape), kind,
              rtol=1e-6, atol=20 * err)


def expressions(ctx):
    g, F, P, e, params = setup(ctx)
    ref = ref_grad(e, params)
    for which in ("grad", "eval", "single"):
        got = grads(ctx, e, params, which)
        judge_grads(ctx, e, params, got, ref, "gradient(%s)" % which)
    if ctx.chance(.3):
        differences(ctx, e, params, got, "differences")


def mixed(ctx):
    g, F, P, e, params = setup_mixed(ctx)
    ref = ref_grad(e, params)
    for which in ("grad", "eval", "single"):
        judge_grads(ctx, e, params, grads(ctx, e, params, which), ref,
                    "gradient(%s)" % which)


def wide(ctx):
    g, F, P, e, params = setup(ctx, depth=0, what="wide")
    ref = ref_grad(e, params)
    for which in ("grad", "eval", "single"):
        judge_grads(ctx, e, params, grads(ctx, e, params, which), ref,
                    "gradient(%s)" % which)


def again(ctx):
    """one object at several points"""
    if ctx.chance(.5):
        e, params = leaf_expr(ctx)
        ctx.note(e.text); ctx.sig(e.text, [np.shape(p) for p in params])
        if e.text == "cm":
            raise Skip()
    else:
        g, F, P, e, params = setup(ctx, depth=ctx.randint(0, 2))
    for c, now in moved(ctx, params):
        which = ctx.choice(["grad", "eval", "single"])
        judge_grads(ctx, e, now, grads(ctx, e, c, which), ref_grad(e, now),
                    "gradient again(%s)" % which)


def deep(ctx):
    g, F, P, e, params = setup(ctx, depth=4, what="expr")
    judge_grads(ctx, e, params, grads(ctx, e, params), ref_grad(e, params), "gradient",
                rtol=1e-7)


def leaf_expr(ctx):
    """functions applied directly to arrays of up to three axes"""
    n = ctx.randint(0, 3)
    F = [ctx.randint(1, 4) for _ in range(n)]
    al = list(range(n))
    kind = ctx.choice(["x", "exp", "log", "logistic", "arctan", "sig", "poisson", "lognb",
                       "nb", "lin", "quad", "vector", "scalar", "markov", "mvector", "cm",
                       "game", "tiebreak", "set", "affine"])
    r = float(ctx.choice([.5, 1., 3.]))
    size = ctx.randint(1, 6)
    pos = lambda: ctx.rng.uniform(.1, 3., F)
    any_ = lambda: ctx.rng.uniform(-2., 2., F)
    if kind in ("x", "exp", "logistic", "arctan", "sig", "affine"):
        f, fn = {"x": (X(), lambda z: z), "exp": (Exp(), np.exp),
                 "logistic": (Logistic(), expit), "arctan": (ArcTan(), np.arctan),
                 "sig": (Sigmoid("arctan"), lambda z: np.arctan(z) / np.pi + .5),
                 "affine": (2 - 3 * Exp(), lambda z: 2 - 3 * np.exp(z))}[kind]
        return E(f, lambda p: fn(p[0]), n, 0, kind), [any_()]
    if kind == "log":
        return E(Log(), lambda p: np.log(p[0]), n, 0, kind), [pos()]
    if kind == "scalar":
        return E(Scalar(), lambda p: p[0], 0, 0, kind), [np.array(ctx.rng.normal())]
    if kind == "poisson":
        return E(Poisson(size), lambda p: ref_poisson(p[0], size), n, 1, kind), [pos()]
    if kind == "lognb":
        return E(LogNegativeBinomial(size, r), lambda p: ref_lognb(p[0], size, r), n, 1,
                 kind), [pos()]
    if kind == "nb":
        return E(NegativeBinomial(size, r), lambda p: np.exp(ref_lognb(p[0], size, r)),
                 n, 1, kind), [pos()]
    if kind == "lin":
        m = ctx.randint(1, 3)
        ps = [ctx.rng.uniform(-1, 1, [ctx.randint(1, 3)] * ctx.randint(0, 2))
              for _ in range(m)]
        ws = [ctx.rng.uniform(-1, 1, p.shape) if ctx.chance(.5) else 1.5 for p in ps]
        return E(Linear(ws), lambda p: sum((w * a).sum(tuple(range(1, a.ndim)))
                                           for w, a in zip(ws, p)), 0, 0, kind), ps
    if kind == "quad":
        m = ctx.randint(1, 3)
        ps = [ctx.rng.uniform(-1, 1, [ctx.randint(1, 3)] * ctx.randint(0, 2))
              for _ in range(m)]
        return E(Quadratic(.3, 1.7), lambda p: sum(
            (((a - .3) / 1.7) ** 2).sum(tuple(range(1, a.ndim))) for a in p),
            0, 0, kind), ps
    if kind == "vector":
        if ctx.chance(.5) or n == 0:
            v = ctx.rng.uniform(-1, 1, ctx.randint(1, 4))
            return E(Vector(v), lambda p: p[0][:, None] * v, 1, 0, kind), \
                [np.array(ctx.rng.normal())]
        v = ctx.rng.uniform(-1, 1, F)
        return E(Vector(v), lambda p: p[0] * v, n, 0, kind), [any_()]
    if kind in ("markov", "mvector"):
        size, steps = ctx.randint(1, 6), ctx.randint(1, 9)
        top = min(1.4, .47 * steps / 1.05)
        a, b = ctx.rng.uniform(.05, top, F), ctx.rng.uniform(.05, top, F)
        if kind == "markov":
            sk = None if ctx.chance(.5) else ctx.rng.uniform(.3, 1.05, (size, size))
            return E(MarkovMatrix(size, steps, sk),
                     lambda p: ref_markov(p[0], p[1], size, steps, sk), n, 2, kind), [a, b]
        sk = None if ctx.chance(.5) else ctx.rng.uniform(.3, 1.05, 2 * size - 1)
        return E(MarkovVector(size, steps, sk),
                 lambda p: ref_markov_vector(p[0], p[1], size, steps, sk), n, 1, kind), [a, b]
    if kind == "cm":
        cond = None if ctx.chance(.4) else [
            (ctx.randint(-2, 2), ctx.randint(-2, 2), ctx.randint(-2, 2),
             ctx.choice([-1, 0, 1])) for _ in range(ctx.randint(1, 3))]
        s = [ctx.randint(1, 3), ctx.randint(1, 3)]
        t = ctx.rng.uniform(0, 1, F + s)
        return E(CollapseMatrix(cond), lambda p: ref_collapse_matrix(p[0], cond or WDL),
                 n, 1, kind), [t]
    q = ctx.rng.uniform(.02, .98, F[:1])
    m = q.ndim
    if kind == "game":
        return E(Game(), lambda p: ref_game(p[0]), m, 1, kind), [q]
    if kind == "tiebreak":
        return E(TieBreak(), lambda p: ref_tiebreak(p[0]), m, 1, kind), [q]
    q2 = ctx.rng.uniform(.02, .98, F[:1])
    return E(Set(), lambda p: ref_set(p[0], p[1]), m, 1, kind), [q, q2]


def leaves(ctx):
    e, params = leaf_expr(ctx)
    ctx.note(e.text, [np.shape(p) for p in params],
             [np.round(p, 3).tolist() for p in params])
    ctx.sig(e.text, [np.shape(p) for p in params])
    if e.text == "cm":
        params = params[0]
        ref = ref_grad(e, [params])
        g = ctx.call("grad", e.f.grad, params, 0)
        # the extra axes of the table are value axes of the argument
        judge(ctx, g, ref.reshape(params.shape + ref.shape[1:]),
              (params.ndim, 0, e.n, e.d), "gradient")
        return
    ref = ref_grad(e, params)
    judge_grads(ctx, e, params, grads(ctx, e, params), ref, "gradient")
    judge_grads(ctx, e, params, grads(ctx, e, params, "eval"), ref, "gradient(eval)")


def extreme_leaf(ctx):
    """one-argument functions at the ends of their range: f, formula, argument, axes, rates"""
    F = [ctx.randint(1, 5) for _ in range(ctx.randint(0, 2))]
    kind = ctx.choice(["poisson", "lognb", "lognb", "nb", "nb", "log", "exp", "logistic",
                       "arctan", "sig", "compose", "compose"])
    size, r = ctx.randint(1, 30), float(ctx.choice([.05, .5, 1., 3., 40.]))
    rate = np.exp(ctx.rng.uniform(np.log(1e-6), np.log(60), F))
    wide = ctx.rng.choice([-1, 1], F) * np.exp(ctx.rng.uniform(np.log(
        ctx.choice([1e-4, 1e-9])), np.log(30), F))
    if kind == "poisson":
        return Poisson(size), lambda z: ref_poisson(z, size), rate, 1, True
    if kind == "lognb":
        return LogNegativeBinomial(size, r), lambda z: ref_lognb(z, size, r), rate, 1, True
    if kind == "nb":
        return NegativeBinomial(size, r), lambda z: np.exp(ref_lognb(z, size, r)), rate, 1, \
            True
    if kind == "log":
        return Log(), np.log, rate, 0, True
    if kind == "compose":
        return Compose(LogNegativeBinomial(size, r), Exp()) if ctx.chance(.5) else \
            LogNegativeBinomial(size, r) @ Exp(), \
            lambda z: ref_lognb(np.exp(z), size, r), wide / 3, 1, False
    return {"exp": (Exp(), np.exp), "logistic": (Logistic(), expit),
            "arctan": (ArcTan(), np.arctan),
            "sig": (Sigmoid("arctan"), lambda z: np.arctan(z) / np.pi + .5)}[kind] + \
        (wide, 0, False)


def own_cells(t, x, groups_of_x):
    """the blocks of every cell with itself, after the check that others are zero"""
    d = dense_of(t)
    idx = tuple(np.indices(x.shape))
    own = np.array(d[idx * (groups_of_x + 1)])
    d = np.array(d)
    d[idx * (groups_of_x + 1)] = 0
    return own, not d.any()


def judge_own(ctx, t, x, want, k, kind, rtol, floor):
    """cell by cell, with the magnitude of each cell"""
    own, clean = own_cells(t, x, k)
    ctx.check(clean, kind + ":other cells")
    ctx.check(own.shape == want.shape, kind + ":shape")
    size = np.abs(want).max(-1, keepdims=True) if want.ndim > x.ndim else np.abs(want)
    ctx.check(np.all(np.abs(own - want) <= rtol * size + floor), kind,
              lambda: "%s instead of %s" % (own, want))


def extremes(ctx):
    f, ref, x, d, rates = extreme_leaf(ctx)
    ctx.note(type(f).__name__, x.shape, x.tolist())
    ctx.sig(type(f).__name__, x.shape)
    want = ref(x + 1e-40j).imag / 1e-40
    if not np.all(np.isfinite(want)):
        raise Skip()
    for how, t in (("grad", ctx.call("grad", f.grad, [x], 0)),
                   ("eval", ctx.call("eval", f.eval, [x])[1][0])):
        judge_own(ctx, t, x, want, 1, "extreme gradient(%s)" % how, 1e-10, 1e-14)


def forms(ctx):
    """linear and quadratic forms with coefficients of any magnitude: f, arguments, derivatives"""
    c = 10. ** ctx.randint(-9, 9)
    ps = [ctx.rng.uniform(-1, 1, [ctx.randint(1, 3) for _ in range(ctx.randint(0, 2))])
          for _ in range(ctx.randint(1, 3))]
    kind = ctx.choice(["lin", "lin", "quad", "quad", "arrays", "vector", "mul"])
    if kind == "lin":
        ws = [c * ctx.rng.uniform(-1, 1, p.shape) if ctx.chance(.6) else
              c * ctx.choice([1, -2, .3]) for p in ps]
        f, g = Linear(ws), [w * np.ones(p.shape) for w, p in zip(ws, ps)]
        h = [0 * p for p in ps]
    elif kind in ("quad", "arrays"):
        ps = [c * p for p in ps]
        if kind == "arrays":
            ps = ps[:1]
            u = c * ctx.rng.uniform(-1, 1, ps[0].shape)
            s = c * ctx.rng.uniform(.5, 3, ps[0].shape) * ctx.choice([1, -1])
        else:
            u, s = c * float(ctx.rng.uniform(-1, 1)), c * ctx.choice([1., -.5, 3.])
            if ctx.chance(.3):
                # far centre, near arguments
                u = c * 1e7
                ps = [u + p for p in ps]
        f = Quadratic(u, s)
        g, h = [2 * (p - u) / s ** 2 for p in ps], [2 / s ** 2 * np.ones(p.shape) for p in ps]
    elif kind == "vector":
        v = c * ctx.rng.uniform(-1, 1, ctx.randint(1, 4))
        ps = [np.array(float(ctx.rng.normal()))]
        f, g, h = Vector(v), [v], [0 * v]
    else:
        ps = ps[:1]
        f = c * X() if ctx.chance(.5) else X() / c
        g = [(c if f.a == c else 1 / c) * np.ones(ps[0].shape)]
        h = [0 * ps[0]]
    ctx.note(kind, c, [p.tolist() for p in ps])
    ctx.sig(kind, c, [p.shape for p in ps])
    return kind, f, ps, g, h


def judge_form(ctx, t, want, k, kind, what):
    """want: dense diagonal, k groups of parameter axes"""
    d = dense_of(t)
    n = want.ndim
    if kind in ("vector", "mul") and k == 1:
        if kind == "mul":
            full = np.zeros(want.shape * 2)
            full[tuple(np.indices(want.shape)) * 2] = want
            want = full
        d = np.broadcast_to(d, want.shape)
    elif k == 1 or not want.any():
        pass
    else:
        full = np.zeros(want.shape * 2)
        full[tuple(np.indices(want.shape)) * 2] = want
        want = full
    if not want.any():
        return ctx.check(not d.any(), what + ":zero")
    ctx.check(d.shape == want.shape, what + ":shape", lambda: "%s, expected %s" % (
        d.shape, want.shape))
    ctx.check(np.all(np.abs(d - want) <= 1e-9 * np.abs(want)), what,
              lambda: "%s instead of %s" % (d, want))


def linear(ctx):
    kind, f, ps, g, _ = forms(ctx)
    for i, w in enumerate(g):
        for how, t in (("grad", ctx.call("grad", f.grad, ps, i)),
                       ("all", ctx.call("grad", f.grad, ps)[i]),
                       ("eval", ctx.call("eval", f.eval, ps)[1][i])):
            judge_form(ctx, t, np.asarray(w), 1, kind, "form gradient(%s)" % how)


WORKLOADS = [("again", again, 300, 5000), ("linear", linear, 300, 4000), ("extremes", extremes, 600, 9000), ("expressions", expressions, 900, 14000), ("deep", deep, 80, 1500), ("wide", wide, 120, 2000),
             ("mixed", mixed, 300, 5000),
             ("leaves", leaves, 900, 10000)]
