"""C05: the value of expressions vs the denoted formula."""
from functools import reduce
import numpy as np
from .core import Violation, Skip
from .dense import *
from .exprs import *

RULE = ("random expression trees (leaves, operators, sums, products, compositions, collapses, "
        "count and score functions; nested, permuted, repeated and shared parameters and "
        "features) over 1-3 features of unequal sizes, evaluated at random points and compared "
        "cell by cell with an independent evaluation of the formula. Distinct by expression.")


def setup(ctx, depth=None, what="any", **kw):
    g = Gen(ctx)
    F, P = g.problem_wide() if what == "wide" else g.problem(**kw)
    depth = ctx.randint(0, 3) if depth is None else depth
    e = ctx.call("construction", getattr(g, what), F, P, depth)
    params = g.values(P)
    ctx.note("features", F, "parameters", P)
    ctx.note(e.text)
    ctx.sig(e.text, tuple(F), tuple(P))
    in_range(ref_value(e, params), ref_grad(e, params))
    return g, F, P, e, params


def in_range(*arrays):
    """numbers that overflow are outside of the domain"""
    for a in arrays:
        if not np.all(np.abs(a) < 1e10):
            raise Skip()


def value(ctx):
    g, F, P, e, params = setup(ctx)
    v = ref_value(e, params)
    ctx.note("params", [np.round(p, 3).tolist() for p in params])
    judge(ctx, ctx.call("call", e.f, params), v, (0, 0, e.n, e.d), "value",
          exact_groups=True, rtol=1e-9)
    val = ctx.call("eval", e.f.eval, params)[0]
    judge(ctx, val, v, (0, 0, e.n, e.d), "eval-value", exact_groups=True, rtol=1e-9)


def setup_mixed(ctx):
    """functions of several expressions with features of their own, or with extra dims"""
    what = ctx.choice(["mixed", "mixed", "above", "collapsed", "collapsed"])
    return setup(ctx, depth=1, what=what, min_feat=2 if what == "mixed" else 1)


def mixed(ctx):
    g, F, P, e, params = setup_mixed(ctx)
    v = ref_value(e, params)
    judge(ctx, ctx.call("call", e.f, params), v, (0, 0, e.n, e.d), "value",
          exact_groups=True, rtol=1e-9)
    judge(ctx, ctx.call("eval", e.f.eval, params)[0], v, (0, 0, e.n, e.d), "eval-value",
          exact_groups=True, rtol=1e-9)


def wide(ctx):
    """many terms, parameters and features, long axes"""
    g, F, P, e, params = setup(ctx, depth=0, what="wide")
    v = ref_value(e, params)
    judge(ctx, ctx.call("call", e.f, params), v, (0, 0, e.n, e.d), "value",
          exact_groups=True, rtol=1e-9)
    judge(ctx, ctx.call("eval", e.f.eval, params)[0], v, (0, 0, e.n, e.d), "eval-value",
          exact_groups=True, rtol=1e-9)


def leaves(ctx):
    """functions applied to arrays of any magnitude, cell by cell"""
    if ctx.chance(.4):
        # linear and quadratic forms
        m, c = ctx.randint(1, 3), 10. ** ctx.randint(-9, 6)
        ps = [ctx.rng.uniform(-1, 1, [ctx.randint(1, 3)] * ctx.randint(0, 2))
              for _ in range(m)]
        kind = ctx.choice(["lin", "lin", "quad", "vector", "x"])
        if kind == "lin":
            ws = [c * ctx.rng.uniform(-1, 1, p.shape) for p in ps]
            f, want = Linear(ws), sum((w * p).sum() for w, p in zip(ws, ps))
            unit = sum(np.abs(w * p).sum() for w, p in zip(ws, ps))
        elif kind == "quad":
            u = float(ctx.rng.uniform(-1, 1)) * c
            if ctx.chance(.3):
                u = 1e7 * c     # far centre, near arguments
            ps = [c * p + (u if abs(u) > 1e6 * c else 0) for p in ps]
            f, want = Quadratic(u, 3. * c), sum((((p - u) / c / 3.) ** 2).sum() for p in ps)
            unit = want
        else:
            p = ps[0]
            ps = [p]
            v = c * ctx.rng.uniform(-1, 1, p.shape)
            if kind == "x" or p.ndim == 0:
                ps[0] = v
                f, want = X(), v
            else:
                f, want = Vector(v), v * p
            unit = None
        ctx.note(kind, c, [np.shape(p) for p in ps])
        ctx.sig(kind, c, [np.shape(p) for p in ps])
        for v in (ctx.call("call", f, ps), ctx.call("eval", f.eval, ps)[0]):
            d = dense_of(v)
            ctx.check(d.shape == np.shape(want), "leaf shape", lambda: str(d.shape))
            ctx.check(np.all(np.abs(d - want) <= 1e-11 * (
                np.abs(want) if unit is None else unit) + 1e-300), "leaf value",
                lambda: "%s instead of %s" % (d, want))
        return
    from .c06 import extreme_leaf
    f, ref, x, d, rates = extreme_leaf(ctx)
    ctx.note(type(f).__name__, x.shape, x.tolist())
    ctx.sig(type(f).__name__, x.shape)
    want = ref(x)
    if not np.all(np.isfinite(want)):
        raise Skip()
    # logarithms are sums of terms of this magnitude
    unit = 1e3 if isinstance(f, LogNegativeBinomial) or (
        isinstance(f, Compose) and d) else 1e-10
    rel = 1e-12 if d == 0 else 1e-10
    for v in (ctx.call("call", f, [x]), ctx.call("eval", f.eval, [x])[0]):
        got = dense_of(v)
        ctx.check(got.shape == want.shape, "leaf shape", lambda: str(got.shape))
        ctx.check(np.all(np.abs(got - want) <= rel * np.abs(want) + 1e-12 * unit),
                  "leaf value", lambda: "%s instead of %s" % (got, want))


def reuse(ctx):
    """the same expression object at several points, also in the same containers and memory"""
    g, F, P, e, params = setup(ctx, depth=ctx.randint(0, 2))
    how = ctx.choice(["memory", "list", "fresh"])
    work = [np.array(p, dtype=float) for p in params]
    c = list(work)
    ctx.note("reuse of", how)
    ctx.sig(how)
    for k in range(4):
        if k:
            # often one parameter moves only, sometimes none
            move = [ctx.chance(.5) for _ in params]
            q = [w + ctx.rng.uniform(-.2, .2, w.shape) if m else w.copy()
                 for w, m in zip(work, move)]
            if how == "memory":
                for w, v in zip(work, q):
                    w[...] = v
            else:
                work = q
                if how == "list":
                    c[:] = q
                else:
                    c = list(q)
        now = [w.copy() for w in work]
        try:
            v = ref_value(e, now)
        except Skip:
            break
        if not np.all(np.abs(v) < 1e10):
            break
        judge(ctx, ctx.call("call", e.f, c), v, (0, 0, e.n, e.d), "value", rtol=1e-9)
        judge(ctx, ctx.call("eval", e.f.eval, c)[0], v, (0, 0, e.n, e.d), "eval-value",
              rtol=1e-9)
        ctx.event("evaluations of one object")


def grow(ctx):
    """terms and factors are added to an expression that was evaluated before"""
    g = Gen(ctx)
    F, P = g.problem()
    params, N = g.values(P), len(F)
    prod = ctx.chance(.4)
    f = Product(N) if prod else Sum(N)
    parts = []
    ctx.note("grow", F, P)
    for k in range(ctx.randint(2, 4)):
        e = g.full(F, P, ctx.randint(0, 1))
        pm, w = list(range(len(P))), list(range(N))
        c = 1. if prod else ctx.choice([1., -1., .5, 2.])
        f.add(e.f, pm, w) if prod else f.add(e.f, pm, w, weight=c)
        parts.append((c, e))
        ctx.note(c, e.text); ctx.sig(c, e.text)
        if not prod:
            ref = lambda p: sum(c * e.ref(p) for c, e in parts)
        else:
            ref = lambda p: reduce(lambda x, y: x * y, [e.ref(p) for _, e in parts])
        v = ref_value(E(f, ref, N, 0, ""), params)
        for kind in ctx.choice([("call",), ("eval",), ("call", "eval"), ("eval", "call")]):
            t = ctx.call("call", f, params) if kind == "call" else \
                ctx.call("eval", f.eval, params)[0]
            judge(ctx, t, v, (0, 0, N, 0), "value after growing", rtol=1e-9)
        ctx.event("grown")


def deep(ctx):
    g, F, P, e, params = setup(ctx, depth=5, what="expr")
    v = ref_value(e, params)
    judge(ctx, ctx.call("call", e.f, params), v, (0, 0, e.n, e.d), "value",
          exact_groups=True, rtol=1e-8)


def nesting(ctx):
    """the same formula with different nestings and orders"""
    g = Gen(ctx)
    F, P = g.problem(min_feat=2)
    N = len(F)
    terms = [g.term(F, P, 1) for _ in range(ctx.randint(2, 4))]
    ws = [ctx.choice([1., -1., .5, 2.]) for _ in terms]
    params = g.values(P)
    al, fl = list(range(len(P))), list(range(N))
    flat = Sum(N)
    for w, (e, pm, fm) in zip(ws, terms):
        flat.add(e.f, pm, fm, weight=w)
    rev = Sum(N)
    for w, (e, pm, fm) in reversed(list(zip(ws, terms))):
        rev.add(w * e.f, pm, fm)
    nest = Sum(N)
    pq, fq = ctx.perm(len(P)), ctx.perm(N)
    for w, (e, pm, fm) in zip(ws, terms):
        # inner parameter k is the outer parameter pq[k]
        inner = Sum(N).add(e.f, [pq.index(k) for k in pm], [fq.index(k) for k in fm])
        if ctx.chance(.5):
            inner = 1. * inner + 1.5
            nest.add(inner, pq, fq, weight=w)
            nest.add(Constant(-1.5), [], [], weight=w)
        elif ctx.chance(.5):
            nest.add(-inner, pq, fq, weight=-w)
        else:
            nest.add(X() @ inner, pq, fq, weight=w)
    ref = sum(w * put(e.ref([params[k][None] for k in pm]), e.n, 0, fm, N, [], 0)
              for w, (e, pm, fm) in zip(ws, terms))[0]
    ctx.note(F, P, [(w, e.text, pm, fm) for w, (e, pm, fm) in zip(ws, terms)], pq, fq)
    ctx.sig(str(ctx.desc[-1]))
    for name, s in (("flat", flat), ("reversed", rev), ("nested", nest)):
        judge(ctx, ctx.call(name, s, params), ref, (0, 0, N, 0), name, exact_groups=True)
        judge(ctx, ctx.call(name, s.eval, params)[0], ref, (0, 0, N, 0), name + "-eval",
              exact_groups=True)
    # products
    pf, pn = Product(N), Product(N)
    ref = 1.
    for e, pm, fm in terms:
        pf.add(e.f, pm, fm)
        pn.add(Product(N).add(e.f, [pq.index(k) for k in pm], [fq.index(k) for k in fm]),
               pq, fq)
        ref = ref * put(e.ref([params[k][None] for k in pm]), e.n, 0, fm, N, [], 0)[0]
    judge(ctx, ctx.call("product", pf, params), ref, (0, 0, N, 0), "product")
    judge(ctx, ctx.call("product", pn, params), ref, (0, 0, N, 0), "nested-product")


def wraps(ctx):
    """direct placements, with reversed features"""
    g = Gen(ctx)
    F, P = g.problem(max_feat=2)
    e = g.full(F, P, 1)
    params = g.values(P)
    N = len(F)
    n = N + ctx.randint(0, 2)
    fm = ctx.sample(n, N)
    flip = ctx.sample(n, ctx.randint(1, n)) if ctx.chance(.6) else None
    pm = [ctx.randint(0, len(P) - 1) if P[k] == P[0] and False else k for k in range(len(P))]
    order = ctx.perm(len(P))
    f = FuncWrap(e.f, [order.index(k) for k in pm], fm, n, feat_flip=flip)
    outer = [params[k] for k in order]
    v = put(ref_value(e, params)[None], N, 0, fm, n, [], 0)[0]
    if flip:
        v = np.flip(v, flip)
    ctx.note(e.text, "feat", fm, n, "flip", flip, "order", order)
    ctx.sig(e.text, tuple(fm), n, tuple(flip or ()))
    judge(ctx, ctx.call("wrap", f, outer), v, (0, 0, n, 0), "wrap", exact_groups=True)
    judge(ctx, ctx.call("wrap", f.eval, outer)[0] if not flip else f(outer), v,
          (0, 0, n, 0), "wrap-eval", exact_groups=True)


WORKLOADS = [("grow", grow, 150, 2500), ("value", value, 1200, 20000), ("reuse", reuse, 400, 6000),
             ("mixed", mixed, 300, 5000), ("wide", wide, 150, 2500), ("leaves", leaves, 500, 8000), ("deep", deep, 120, 2000),
             ("nesting", nesting, 300, 5000), ("wraps", wraps, 300, 4000)]
