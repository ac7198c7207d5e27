"""C04: operands, caller's data and stored parameters are never altered."""
import numpy as np
import pandas as pd
import maxlike
from maxlike import skellam
from maxlike.func import *
from maxlike.maxlike_base import Param, ConvergenceError
from maxlike.preprocessing import prepare_series, prepare_dataframe, df_count
from maxlike.tensor import Tensor
from .core import Skip, Violation
from .dense import *
from . import exprs, models, frames
from .exprs import Gen
from .c05 import setup
from .c06 import leaf_expr
from .digest import Watch, canon

RULE = ("digests of the content (and writability) of every operand, container, parameter, mask, "
        "data array and frame are taken before and compared after each tensor operation, function "
        "evaluation, likelihood call, fit (successful, failing, both methods), root search and "
        "data preparation; the caller's arrays are then overwritten, and what the library built "
        "from them has to be the same. Distinct by operation and shapes.")


def caller_array(ctx, a):
    """the same values in the memory layouts a caller may use"""
    a = np.array(a, dtype=float)
    kind = ctx.choice(["c", "c", "f", "view", "strided", "int", "ro", "roview"])
    if kind == "f" and a.ndim:
        return np.asfortranarray(a)
    if kind == "view" and a.ndim:
        big = np.zeros((a.shape[0] + 2,) + a.shape[1:])
        big[1:-1] = a
        return big[1:-1]
    if kind == "strided" and a.ndim:
        big = np.zeros(a.shape[:-1] + (2 * a.shape[-1],))
        big[..., ::2] = a
        return big[..., ::2]
    if kind == "int":
        return np.array(np.round(a).astype(int))
    if kind == "roview":
        # can't be written here, but in the array it is a view of
        big = np.array(a)
        a = big[...]
        a.flags.writeable = False
        return a
    if kind == "ro":
        a.flags.writeable = False
    return a


def scribble(a, own=False):
    """the caller reuses the memory"""
    if own and isinstance(a, np.ndarray) and isinstance(a.base, np.ndarray) and \
            not a.flags.writeable:
        a = a.base
    if isinstance(a, np.ndarray) and a.flags.writeable:
        if a.dtype == bool:
            a[...] = ~a
        else:
            a[...] = a * -3 + 7
        return True
    return False


def frozen(ctx, t):
    """attributes can't be assigned, values can't be written"""
    for name in ("values", "x_dim", "x_map", "something"):
        try:
            setattr(t, name, np.zeros(2))
        except Exception:
            ctx.event("judged:assignment refused")
            continue
        raise Violation("attribute assigned", name)
    if hasattr(t, "values"):
        try:
            delattr(t, "values")
        except Exception:
            ctx.event("judged:deletion refused")
        else:
            raise Violation("attribute deleted")
        ctx.check(not t.values.flags.writeable, "stored values can't be written")
        try:
            t.values[...] = 0
        except Exception:
            ctx.event("judged:write refused")
        else:
            raise Violation("stored values written")


def tensors(ctx):
    s = Space(ctx)
    mk = lambda: s.tensor(positive=True) if ctx.chance(.65) else \
        s.sum_of(ctx.randint(2, 3), full_first=ctx.chance(.5))
    a, b, c = mk(), mk(), s.tensor(mapped=0)
    arr = caller_array(ctx, ctx.rng.uniform(.5, 2, s.N + s.D)) if ctx.chance(.7) else None
    W = Watch(ctx)
    W.add("tensor", a.t, b.t, c.t)
    if arr is not None:
        W.add("array", arr)
    x, y, n, d = a.g
    ops = {
        "add": lambda: a.t + b.t, "sub": lambda: a.t - b.t, "mul": lambda: a.t * b.t,
        "div": lambda: a.t / c.t, "neg": lambda: -a.t, "pow": lambda: c.t ** 2,
        "radd": lambda: 2 + a.t, "rsub": lambda: 2 - a.t, "rdiv": lambda: 1 / c.t,
        "sum": lambda: a.t.sum(), "sum val": lambda: a.t.sum(True, False),
        "sum dim": lambda: a.t.sum(False, True), "sum none": lambda: a.t.sum(False, False),
        "sum part": lambda: a.t.sum(ctx.sample(n, ctx.randint(1, n))) if n else None,
        "expand": lambda: a.t.expand(ctx.sample(n + 1, n), n + 1),
        "expand dim": lambda: a.t.expand(ctx.sample(d + 1, d), d + 1, dim=True),
        "flip dim": lambda: a.t.flip(0, dim=True) if d else None,
        "flip": lambda: a.t.flip(0) if n else None,
        "transpose": lambda: a.t.transpose(), "drop_dim": lambda: a.t.drop_dim(),
        "toarray": lambda: a.t.toarray(), "exp": lambda: np.exp(c.t), "log": lambda: np.log(c.t),
        "add arr": lambda: a.t + arr if arr is not None else None,
        "arr sub": lambda: arr - a.t if arr is not None else None,
        "mul arr": lambda: c.t * arr if arr is not None else None,
        "power": lambda: np.power(c.t, 2), "broadcast": lambda: a.t.broadcast_like(c.t),
        "float": lambda: float(a.t.sum()), "str": lambda: str(a.t), "same": lambda: a.t + a.t,
    }
    names = list(ops)
    for k in ctx.perm(len(names))[:12]:
        name = names[k]
        ctx.sig(name)
        try:
            r = ops[name]()
        except (Violation, Skip):
            raise
        except Exception as e:
            ctx.event("refused:" + name)
            r = None
        W.verify(name)
        if isinstance(r, BaseTensor):
            frozen(ctx, r)
            before = canon(r)
            out = np.asarray(r.toarray())
            if scribble(out):
                ctx.event("toarray is writable")
            ctx.check(canon(r) == before, "tensor unchanged by its dense form", name)
            W.verify("writing to the dense form of the result of " + name)
    # in place operators rebind the name only
    t = a.t
    t += b.t
    t *= 2
    t -= b.t
    W.verify("in place")
    # contraction
    k = len(s.N)
    if 0 < k <= 2 and x == 0:
        left = Tensor(ctx.rng.uniform(.5, 1, [3] + s.N), x_dim=1)
        L, R = left, Tensor(ctx.rng.uniform(.5, 1, s.N + [2]), x_dim=k)
        W.add("tensor", L, R)
        for f in (lambda: L.dot(R), lambda: R.dot_left(L), lambda: L.dot_right(R),
                  lambda: R.dot(L)):
            try:
                f()
            except Exception:
                ctx.event("refused:dot")
            W.verify("contraction")


def constructors(ctx):
    shape = [ctx.randint(1, 4) for _ in range(ctx.randint(0, 3))]
    a = caller_array(ctx, ctx.rng.uniform(-2, 2, shape))
    W = Watch(ctx)
    W.add("array", a)
    kind = ctx.choice(["tensor", "param", "param", "add_param"])
    ctx.note(kind, shape, a.dtype, a.flags.c_contiguous)
    ctx.sig(kind, tuple(shape), str(a.dtype), a.flags.c_contiguous, a.flags.writeable)
    if kind == "tensor":
        p = ctx.randint(0, len(shape))
        args = dict(dim=len(shape) - p) if ctx.chance(.5) else dict(x_dim=p)
        t = ctx.call("Tensor", Tensor, a, **args)
        W.verify("Tensor()")
        before = canon(t)
        frozen(ctx, t)
        scribble(a, True)
        ctx.check(canon(t) == before, "tensor doesn't follow the array")
        b = np.array(np.asarray(t.toarray()))
        W = Watch(ctx)
        W.add("tensor", t)
        u = ctx.call("Tensor(Tensor)", Tensor, t.values)
        frozen(ctx, u)
        W.verify("Tensor(values)")
        return
    m = ctx.choice([None, caller_mask(ctx, shape)])
    if m is not None:
        W.add("mask", m)
    if kind == "param":
        p = ctx.call("Param", Param, a, m)
        W.verify("Param()")
        before = canon(p)
        for name in ("values", "mask", "new"):
            try:
                setattr(p, name, np.zeros(2))
            except Exception:
                ctx.event("judged:assignment refused")
            else:
                raise Violation("attribute of a parameter assigned", name)
        for arr in (p.values, p.mask):
            ctx.check(not arr.flags.writeable, "values of a parameter can't be written")
        scribble(a, True)
        if m is not None and isinstance(m, np.ndarray):
            scribble(m)
        ctx.check(canon(p) == before, "parameter doesn't follow the arrays")
        return
    mod = maxlike.Poisson()
    ctx.call("add_param", mod.add_param, a, m)
    W.verify("add_param")
    first = [canon(p) for p in mod.params]
    scribble(a, True)
    if isinstance(m, np.ndarray):
        scribble(m)
    ctx.check([canon(p) for p in mod.params] == first, "parameter doesn't follow the arrays")
    g = ctx.call("get_params", mod.get_params)
    for v in g:
        try:
            v[...] = 99.
        except Exception:
            ctx.event("write to get_params refused")
        try:
            v.data[...] = 98.
        except Exception:
            ctx.event("write to get_params refused")
        try:
            np.ma.getmaskarray(v)[...] = True
            v[...] = np.ma.masked
        except Exception:
            pass
    ctx.check([canon(p) for p in mod.params] == first, "stored parameter is not writable")


def caller_mask(ctx, shape):
    m = ctx.rng.random(shape) < .4
    return ctx.choice([np.array(m), np.array(m).astype(int), np.array(m).tolist()])


def functions(ctx):
    if ctx.chance(.6):
        g, F, P, e, params = setup(ctx)
    else:
        e, params = leaf_expr(ctx)
        ctx.note(e.text, [np.shape(p) for p in params])
        ctx.sig(e.text, [np.shape(p) for p in params])
        if e.text == "cm":
            params = [Tensor(params[0], dim=2)]
    f = e.f
    W = Watch(ctx)
    kind = ctx.choice(["list", "tuple", "param", "mixed", "tensor"])
    if e.text == "cm":
        kind = "list"

    def pack(p):
        if kind == "param" or kind == "mixed" and ctx.chance(.5):
            return Param(p, ctx.rng.random(np.shape(p)) < .5)
        return p
    c = [pack(p) for p in params]
    if kind == "tensor":
        c = list(params)
    if kind == "tuple":
        c = tuple(c)
    W.add("parameters", c)
    for p in c:
        W.add("parameter", p)
    ctx.note("container", kind)
    results = []
    ops = [("call", lambda: f(c)), ("grad", lambda: f.grad(c)), ("hess", lambda: f.hess(c)),
           ("eval", lambda: f.eval(c)), ("grad i", lambda: f.grad(c, 0)),
           ("hess ij", lambda: f.hess(c, 0, 0))]
    for k in ctx.perm(len(ops)):
        name, op = ops[k]
        r = ctx.call(name, op)
        W.verify(name)
        flat = []

        def collect(o):
            if isinstance(o, BaseTensor):
                flat.append(o)
            elif isinstance(o, (list, tuple)):
                [collect(v) for v in o]
        collect(r)
        for t in flat[:4]:
            frozen(ctx, t)
        for t in flat:
            results.append((name, t, canon(t)))
        for n, t, before in results:
            ctx.check(canon(t) == before, "earlier results unchanged",
                      lambda: "%s changed the result of %s" % (name, n))
    # the caller reuses the arrays of the parameters
    if e.text != "cm":
        for p in c:
            scribble(p)
        for n, t, before in results:
            ctx.check(canon(t) == before, "results don't follow the parameters", n)


def distributions(ctx):
    """copulas and score models work on tensors and arrays of the caller"""
    s = ctx.randint(2, 4)
    F = [ctx.randint(1, 3) for _ in range(ctx.randint(0, 2))]
    u, v = (caller_array(ctx, ctx.rng.uniform(.1, 2, F + [s])) for _ in range(2))
    if u.sum() == 0 or (u.sum(-1) == 0).any() or (v.sum(-1) == 0).any():
        raise Skip()
    W = Watch(ctx)
    W.add("margins", u, v)
    from maxlike.func import copula
    C = {"Gaussian": .3, "Clayton": 1.5, "Gumbel": 1.7, "Frank": 2., "AkiMikhailHaq": .4}
    for name, rho in C.items():
        cls = getattr(copula, name)
        tu, tv = Tensor(u, dim=1), Tensor(v, dim=1)
        W.add("margins", tu, tv)
        W.verify("Tensor of margins")
        ctx.call(name, cls(rho), [tu, tv])
        W.verify(name)
        ctx.call(name, cls(rho), [u, v])
        W.verify(name + " of arrays")
        ctx.sig(name, tuple(F), s)


def pointwise(ctx):
    """functions of probabilities and rates, with the arrays of the caller"""
    from maxlike.func.tennis import Game, TieBreak, Set
    from maxlike.func import copula
    rng = ctx.rng
    shape = [ctx.randint(1, 3) for _ in range(ctx.randint(0, 2))]
    edge = [0., 1e-300, 1e-12, 1e-11, .3, .5, 1 - 1e-9, 1 - 1e-12, 1.]

    def prob():
        p = rng.uniform(0, 1, shape)
        return caller_array(ctx, np.where(rng.random(shape) < .5, p, rng.choice(edge, shape)))
    fns = {"Game": (Game(), [prob()]), "TieBreak": (TieBreak(), [prob()]),
           "Set": (Set(), [prob(), prob()]), "Poisson": (Poisson(4), [5 * prob()]),
           "NB": (NegativeBinomial(4, 1.5), [5 * prob()]), "Exp": (Exp(), [prob()]),
           "LogNB": (LogNegativeBinomial(4, 2.), [5 * prob()]),
           "Logistic": (Logistic(), [60 * prob()]), "ArcTan": (ArcTan(), [prob()])}
    if not shape:
        fns["Markov"] = MarkovMatrix(3, 6), [prob() * .5, prob() * .5]
    for name in ctx.sample(len(fns), 4):
        name = list(fns)[name]
        f, params = fns[name]
        W = Watch(ctx)
        W.add("parameters of " + name, *params)
        c = params if ctx.chance(.5) else tuple(params)
        for op, fn in [("call", lambda: f(c)), ("grad", lambda: f.grad(c, 0)),
                       ("hess", lambda: f.hess(c, 0, 0)), ("eval", lambda: f.eval(c))]:
            try:
                fn()
            except Exception:
                ctx.event("refused:" + op)
            W.verify("%s of %s" % (op, name))
        ctx.sig(name, tuple(shape))


# ---------------------------------------------------------------------------
def likelihood(ctx):
    mod = models.well_posed(ctx, max_feat=2)
    m = mod.build()
    data = {k: caller_array(ctx, v) if k != "N" else np.array(v) for k, v in mod.data.items()}
    W = Watch(ctx)
    for k, v in data.items():
        W.add("data " + k, v)
    try:
        m.fit(max_steps=0, **data)
    except ConvergenceError:
        pass
    W.verify("fit(max_steps=0)")
    params = m.params
    W.add("parameters", *params)
    c = list(params)
    W.add("container", c)
    y, der, hess = ctx.call("eval", m.model.eval, params)
    der, hess = list(der), [list(h) for h in hess]
    W.add("value", y)
    W.add("gradient", der)
    W.add("hessian", hess)
    W.add("N", m.N)
    f0 = m.g(params)
    for name, fn in [("g", lambda: m.g(c)), ("g(y)", lambda: m.g(c, y)),
                     ("like", lambda: m.like(c, y)),
                     ("grad_like", lambda: m.grad_like(c, y, der)),
                     ("hess_like", lambda: m.hess_like(c, y, der, hess)),
                     ("flat_grad", lambda: m.flat_grad(c, y, der)),
                     ("flat_hess", lambda: m.flat_hess(c, y, der, hess)),
                     ("newton_step", lambda: m.newton_step(params))]:
        try:
            fn()
        except np.linalg.LinAlgError:
            ctx.event("singular information")
        W.verify(name)
        ctx.check(m.params is params or [canon(p) for p in m.params] ==
                  [canon(p) for p in params], "stored parameters unchanged", name)
    a, b = m.flat_grad(c, y, der), m.flat_hess(c, y, der, hess)
    ctx.close(m.flat_grad(c, y, der), a, "same score", rtol=0, atol=0)
    ctx.close(m.flat_hess(c, y, der, hess), b, "same information", rtol=0, atol=0)
    hit = [scribble(v, True) for v in data.values()]
    ctx.check(m.g(params) == f0, "data doesn't follow the caller's arrays",
              lambda: "%r %r" % (m.g(params), f0))
    ctx.event("overwritten data arrays", sum(hit))


def fits(ctx):
    mod = models.well_posed(ctx, ctx.choice(["poisson", "logistic", "nb", "zip", "finite",
                                             "nfinite"]), max_feat=2)
    method = ctx.choice(["newton", "newton", "broyden"])
    steps = ctx.choice([20, 50, 50, 50, 1, 2, 0])
    W = Watch(ctx)
    values = [caller_array(ctx, v) for v in mod.params]
    # the layouts include integers, that are other starting values
    if not mod.valid(np.concatenate([np.ravel(v) for v in values])):
        raise Skip()
    masks = [None if k is None else ctx.choice([np.array(k), np.array(k).astype(int)])
             for k in mod.masks]
    form = ctx.choice(["array", "array", "int", "list", "fortran"])
    if form == "int":
        data = {k: v.astype(int) for k, v in mod.data.items()}
    elif form == "list":
        data = {k: v.tolist() for k, v in mod.data.items()}
    elif form == "fortran":
        data = {k: np.asfortranarray(v) for k, v in mod.data.items()}
    else:
        data = {k: np.array(v) for k, v in mod.data.items()}
    for v in values:
        W.add("initial values", v)
    W.add("masks", masks)
    W.add("data", data)
    m = mod.build()
    m.reset_params()
    for v, k in zip(values, masks):
        if k is None:
            m.add_param(v)
        else:
            m.add_param(v, k)
    start = m.params
    W.add("stored parameters", *start)
    kw = dict(method=method, max_steps=steps, verbose=0)
    ctx.note(method, steps, form)
    try:
        ok = m.fit(**kw, **data)
    except Exception as e:
        ok = False
        ctx.event("failed fit")
    W.verify("fit")
    if ok:
        ctx.event("successful fit")
    state = [canon(p) for p in m.params]
    g0 = m.g(m.params)
    report = {}
    for name in ("get_params", "akaine_information_criterion",
                 "bayesian_information_criterion") + \
            (("std_error", "error_matrix", "fisher_matrix") if ok else ()):
        try:
            report[name] = canon(getattr(m, name)())
        except Exception as e:
            report[name] = None     # e.g. singular
        W.verify(name)
        ctx.check([canon(p) for p in m.params] == state, "stored parameters unchanged", name)
    hit = [scribble(v, True) for v in values + [k for k in masks if k is not None] +
           [v for v in data.values() if isinstance(v, np.ndarray)]]
    ctx.event("overwritten arrays", sum(hit))
    ctx.check([canon(p) for p in m.params] == state, "parameters don't follow the caller")
    ctx.check(m.g(m.params) == g0 or not np.isfinite(g0), "data doesn't follow the caller")
    for name, r in report.items():
        if r is not None:
            ctx.check(canon(getattr(m, name)()) == r, "report doesn't follow the caller", name)
    # the start is another object, a later fit doesn't write to it
    for p, q in zip(start, m.params):
        for z in (p.values, q.values):
            ctx.check(not z.flags.writeable, "values of a parameter can't be written")


def roots(ctx):
    rng = ctx.rng
    arrs = [np.array(rng.uniform(.2, 4)) for _ in range(2)]
    W = Watch(ctx)
    W.add("rates", *arrs)
    n = np.array(ctx.randint(-2, 3))
    W.add("n", n)
    x = np.array(rng.uniform(.5, 4, ctx.randint(1, 3)))
    W.add("x", x)
    q = [np.array(.3), np.array(.4)]
    W.add("targets", *q)
    from maxlike.skellam import poisson_cdf, skellam_cdf, skellam_cdf_root, \
        poisson_cdf_root, skellam_cdf_pair
    for name, fn in [("poisson_cdf", lambda: poisson_cdf(arrs[0], abs(n))),
                     ("skellam_cdf", lambda: skellam_cdf(arrs[0], arrs[1], n)),
                     ("skellam_cdf_pair", lambda: skellam_cdf_pair(arrs[0], arrs[1], int(n))),
                     ("poisson_cdf_root", lambda: poisson_cdf_root(np.array(.4), 2)),
                     ("skellam_cdf_root", lambda: skellam_cdf_root(*q))]:
        try:
            fn()
        except Exception as e:
            ctx.event("refused:%s" % name)
        W.verify(name)
    ctx.sig([np.shape(a) for a in arrs], int(n))


def preparation(ctx):
    which = ctx.choice(["series", "frame", "count"])
    W = Watch(ctx)
    if which == "series":
        s, trans, add = frames.series(ctx)
        W.add("series", s); W.add("transformations", trans); W.add("add_axis", add)
        res, axis = ctx.call("prepare_series", prepare_series, s, trans, add)
        W.verify("prepare_series")
        vals = s.values
    elif which == "frame":
        df, w, r, trans, add = frames.frame(ctx)
        W.add("frame", df); W.add("transformations", trans); W.add("add_axis", add)
        res, axis = ctx.call("prepare_dataframe", prepare_dataframe, df, w, r, trans, add)
        W.verify("prepare_dataframe")
    else:
        s = frames.counts(ctx)
        W.add("series", s)
        res = {"x": df_count(s, ctx.randint(1, 6)).values}
        axis = None
        W.verify("df_count")
    # the caller owns the results
    before = [canon(v) for v in res.values()]
    for v in res.values():
        if not scribble(v):
            ctx.event("result is not writable")
    W.verify("writing to the results of the preparation")


WORKLOADS = [("tensors", tensors, 1500, 20000), ("constructors", constructors, 1500, 15000),
             ("functions", functions, 500, 8000), ("distributions", distributions, 150, 2000),
             ("pointwise", pointwise, 400, 4000),
             ("likelihood", likelihood, 200, 3000), ("fits", fits, 200, 3000),
             ("roots", roots, 100, 1500), ("preparation", preparation, 150, 2000)]
