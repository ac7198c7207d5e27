"""C01: arithmetic of tensors vs arithmetic of their dense references."""
import operator
import numpy as np
from scipy import special
from .core import Violation, Skip
from .dense import *

RULE = ("random spaces (0-3 value axes, 0-2 extra axes, 0-2 axes per parameter group, "
        "sizes 2-5, unequal) and random tensors with complete, partial, shared or no "
        "diagonal mappings and missing/broadcast axes; chains of operations over a pool of "
        "tensors. A case is non-trivial when at least one operation result was compared "
        "cell by cell with the numpy reference; distinct by shapes, mappings and operations.")

OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul}


def gmax(*gs):
    return tuple(max(c) for c in zip(*gs))


def construct(ctx):
    s = Space(ctx)
    a = s.tensor(positive=False)
    judge(ctx, a.t, a.a, a.g, "toarray", exact_groups=True, unit=s.mag)
    b = s.sum_of(ctx.randint(2, 6), positive=False, full_first=ctx.chance(.5),
                 bcast=ctx.choice([.25, .6]))
    judge(ctx, b.t, b.a, b.g, "toarray-sum", unit=s.mag)


# numbers that are nearly the special ones
NEAR = [1 + 1e-10, 1 - 1e-7, 1e-10, -1e-16, 1e-40, 1e9, np.float64(-1 + 1e-9)]


def scalars(ctx):
    c = ctx.choice([0, 1, -1, 2, -2.5, .5, np.float64(.5), np.int64(3), 1e-3,
                    np.array(2.), np.float32(2), np.array(0), np.array(1)] + NEAR)
    return c


def binary(ctx):
    s = Space(ctx)
    mk = lambda: s.tensor(positive=False) if ctx.chance(.7) else \
        s.sum_of(ctx.choice([2, 3, 3, 4, 5]), positive=False, full_first=ctx.chance(.5),
                 bcast=ctx.choice([.25, .5]))
    l, r = mk(), mk()
    if ctx.chance(.06):
        r = l       # an object with itself
    g = gmax(l.g, r.g)
    for name, op in OPS.items():
        ctx.note(name); ctx.sig(name, l.kind(), r.kind())
        want = op(l.to(g), r.to(g))
        got = ctx.call(name, op, l.t, r.t)
        judge(ctx, got, want, g, name, unit=s.mag * s.mag if name == "mul" else s.mag)
    # in place operators rebind, operands are the same afterwards
    acc = l.t
    acc += r.t
    judge(ctx, acc, l.to(g) + r.to(g), g, "iadd", unit=s.mag)
    judge(ctx, l.t, l.a, l.g, "operand", unit=s.mag)
    judge(ctx, r.t, r.a, r.g, "operand", unit=s.mag)


def divide(ctx):
    """divisors without structural zeros"""
    s = Space(ctx)
    l = s.tensor(positive=False) if ctx.chance(.6) else \
        s.sum_of(ctx.randint(2, 3), positive=False)
    r = s.tensor(mapped=0)
    if ctx.chance(.06):
        l = r
    g = gmax(l.g, r.g)
    got = ctx.call("div", operator.truediv, l.t, r.t)
    judge(ctx, got, l.to(g) / r.to(g), g, "div")
    c = ctx.choice([2, -.5, 1, np.float64(3), np.array(4.)] + NEAR)
    judge(ctx, ctx.call("div-number", operator.truediv, l.t, c), l.a / float(c), l.g,
          "div-number", unit=s.mag / abs(float(c)), rtol=1e-13)
    c = ctx.choice([0, 1, 2, -.5, np.float64(3)] + NEAR)
    judge(ctx, ctx.call("number-div", operator.truediv, c, r.t), float(c) / r.a, r.g,
          "number-div", unit=abs(float(c)) / s.mag, rtol=1e-13)


def optional(ctx):
    """combinations that may be refused, but not answered wrongly"""
    s = Space(ctx)
    l, r = s.sum_of(2), s.tensor(mapped=0)
    g = gmax(l.g, r.g)
    q = s.sum_of(2, mapped=0)
    for name, f, want, gg in [
            ("tensor/sum", lambda: r.t / q.t, lambda: r.to(gmax(r.g, q.g)) / q.to(gmax(r.g, q.g)), gmax(r.g, q.g)),
            ("number/sum", lambda: 2. / q.t, lambda: 2. / q.a, q.g),
            ("sum**2", lambda: l.t ** 2, lambda: l.a ** 2, l.g),
            ("exp(any)", lambda: np.exp(l.t), lambda: np.exp(l.a), l.g),
            ("exp(tensor)", lambda: np.exp(r.t), lambda: np.exp(r.a), r.g),
            ("maximum(any)", lambda: np.maximum(l.t, 1.), lambda: np.maximum(l.a, 1.), l.g),
            ("power", lambda: np.power(l.t, 2), lambda: l.a ** 2, l.g),
            ("negative", lambda: np.negative(l.t), lambda: -l.a, l.g),
            ("mod", lambda: np.mod(r.t, 1), lambda: np.mod(r.a, 1), r.g)]:
        with np.errstate(all="ignore"):
            w = want()
        try:
            got = f()
        except Exception:
            ctx.event("refused:" + name)
            continue
        judge(ctx, got, w, gg, name)


def numbers(ctx):
    s = Space(ctx)
    t = s.tensor(positive=False) if ctx.chance(.6) else \
        s.sum_of(ctx.randint(2, 3), positive=False)
    c = scalars(ctx)
    v = float(c)
    ctx.note("number", repr(c)); ctx.sig(v, t.kind())
    for name, f, w in [("t+c", lambda: t.t + c, t.a + v), ("c+t", lambda: c + t.t, t.a + v),
                       ("t-c", lambda: t.t - c, t.a - v), ("c-t", lambda: c - t.t, v - t.a),
                       ("t*c", lambda: t.t * c, t.a * v), ("c*t", lambda: c * t.t, t.a * v)]:
        judge(ctx, ctx.call(name, f), w, t.g, name, rtol=1e-13,
              unit=s.mag * abs(v) if "*" in name else max(s.mag, abs(v)))
    judge(ctx, ctx.call("neg", lambda: -t.t), -t.a, t.g, "neg", unit=s.mag)
    # a scalar tensor is a number
    k = Tensor(v)
    for name, f, w in [("t+k", lambda: t.t + k, t.a + v), ("k+t", lambda: k + t.t, t.a + v),
                       ("t-k", lambda: t.t - k, t.a - v), ("k-t", lambda: k - t.t, v - t.a),
                       ("t*k", lambda: t.t * k, t.a * v), ("k*t", lambda: k * t.t, t.a * v)]:
        judge(ctx, ctx.call(name, f), w, t.g, name, rtol=1e-13,
              unit=s.mag * abs(v) if "*" in name else max(s.mag, abs(v)))
    judge(ctx, ctx.call("sum()", lambda: sum([t.t, t.t, t.t])), 3 * t.a, t.g, "sum()", unit=s.mag)


def arrays(ctx):
    s = Space(ctx, n=ctx.randint(1, 3))
    t = s.tensor(positive=False) if ctx.chance(.6) else \
        s.sum_of(ctx.randint(2, 3), positive=False)
    if ctx.chance(.3):
        # one of the operands has no value axes
        t = s.tensor(positive=False, n=False)
    arr = s.mag * ctx.rng.uniform(.5, 2, [1 if ctx.chance(.2) else k for k in s.N])
    if ctx.chance(.1):
        arr = arr[(slice(1),) * arr.ndim]
    g = gmax(t.g, (0, 0, len(s.N), 0))
    A, W = align(arr, (0, 0, arr.ndim, 0), g), t.to(g)
    ctx.note("array", arr.shape); ctx.sig(arr.shape, t.kind())
    for name, f, w in [("t+a", lambda: t.t + arr, W + A), ("a+t", lambda: arr + t.t, W + A),
                       ("t-a", lambda: t.t - arr, W - A), ("a-t", lambda: arr - t.t, A - W),
                       ("t*a", lambda: t.t * arr, W * A), ("a*t", lambda: arr * t.t, W * A),
                       ("t/a", lambda: t.t / arr, W / A),
                       ("np.add", lambda: np.add(t.t, arr), W + A),
                       ("np.subtract", lambda: np.subtract(arr, t.t), A - W),
                       ("np.subtract'", lambda: np.subtract(t.t, arr), W - A),
                       ("np.multiply", lambda: np.multiply(t.t, arr), W * A),
                       ("np.divide", lambda: np.divide(t.t, arr), W / A)]:
        judge(ctx, ctx.call(name, f), w, g, name,
              unit=s.mag ** {"*": 2, "/": 0, "m": 2, "d": 0}.get(
                  name[3] if "np" in name else name[1], 1))
    r = s.tensor(mapped=0)
    g = gmax(r.g, (0, 0, len(s.N), 0))
    judge(ctx, ctx.call("a/t", lambda: arr / r.t),
          align(arr, (0, 0, arr.ndim, 0), g) / r.to(g), g, "a/t")


def powers(ctx):
    s = Space(ctx); s.mag = 1.
    t = s.tensor()
    a = ctx.choice([1, 2, 3, 4, 5, .5, 2.5, 3.5, 5.25, np.float64(1.5), np.int64(4)])
    judge(ctx, ctx.call("pow", lambda: t.t ** a), t.a ** a, t.g, "pow")
    r = s.tensor(mapped=0)
    a = ctx.choice([0, -1, -2, -.5, -3.5, 2, 4.5])
    judge(ctx, ctx.call("pow", lambda: r.t ** a), r.a ** a, r.g, "pow")


UFUNCS = [np.exp, np.log, np.square, np.tanh, np.arctan, special.gammaln,
          special.expit]


def ufuncs(ctx):
    s = Space(ctx, x=0, y=0); s.mag = 1.
    t, r = s.tensor(), s.tensor()
    g = gmax(t.g, r.g)
    for u in UFUNCS:
        judge(ctx, ctx.call(u.__name__, u, t.t), u(t.a), t.g, u.__name__)
    small = T(t.t / 4., t.a / 4., t.g)
    judge(ctx, ctx.call("logit", special.logit, small.t), special.logit(small.a),
          t.g, "logit")
    c = float(ctx.rng.uniform(.5, 2))
    for u in (np.maximum, np.minimum):
        n = u.__name__
        judge(ctx, ctx.call(n, u, t.t, r.t), u(t.to(g), r.to(g)), g, n)
        judge(ctx, ctx.call(n, u, t.t, c), u(t.a, c), t.g, n)
        judge(ctx, ctx.call(n, u, c, t.t), u(t.a, c), t.g, n)
    for u in (np.add, np.subtract, np.multiply, np.divide):
        judge(ctx, ctx.call(u.__name__, u, t.t, r.t), u(t.to(g), r.to(g)), g, u.__name__)


def chain(ctx):
    """programs over a pool of tensors"""
    s = Space(ctx); s.mag = 1.
    pool = [s.tensor(positive=False) for _ in range(3)]
    steps = ctx.randint(3, 7)
    for k in range(steps):
        l, r = ctx.choice(pool), ctx.choice(pool)
        name = ctx.choice(["add", "sub", "mul", "mulc", "addc", "rsub", "div", "neg"])
        ctx.note("step", name); ctx.sig(name)
        if name in OPS:
            g = gmax(l.g, r.g)
            new = T(ctx.call(name, OPS[name], l.t, r.t), OPS[name](l.to(g), r.to(g)), g)
        elif name == "div":
            r = s.tensor(mapped=0)
            g = gmax(l.g, r.g)
            new = T(ctx.call(name, operator.truediv, l.t, r.t), l.to(g) / r.to(g), g)
        elif name == "neg":
            new = T(ctx.call(name, operator.neg, l.t), -l.a, l.g)
        else:
            c = ctx.choice([0, 1, -2, .5])
            f = {"mulc": lambda x: x * c, "addc": lambda x: c + x,
                 "rsub": lambda x: c - x}[name]
            new = T(ctx.call(name, f, l.t), f(l.a), l.g)
        judge(ctx, new.t, new.a, new.g, "chain:" + name, rtol=1e-8)
        if np.max(np.abs(new.a), initial=0) < 1e4:
            pool[ctx.randint(0, len(pool) - 1)] = new


def refusals(ctx):
    """there is no right answer: an exception is due"""
    s = Space(ctx, n=ctx.randint(1, 2), d=1)
    t = s.tensor(full=True, bcast=0)
    kind = ctx.choice(["n", "dim", "x", "size", "zero"])
    mk = lambda shape, **kw: Tensor(ctx.rng.uniform(.5, 2, shape), **kw)
    x, y, n, d = s.g
    if kind == "n":
        o = mk([2] * (n + 1))
    elif kind == "dim":
        o = mk(s.N + [2] * 2, dim=2)
    elif kind == "x":
        if not x:
            raise Skip
        o = mk([2] * (x + 1) + s.N, x_dim=x + 1)
    elif kind == "size":
        if 1 in s.N:
            raise Skip          # such axes are broadcast
        o = mk([k + 3 for k in s.N])
    else:
        o = 0
    ops = [operator.add, operator.sub, operator.mul, operator.truediv]
    op = operator.truediv if kind == "zero" else ctx.choice(ops)
    ctx.note(kind, op.__name__); ctx.sig(kind, op.__name__)
    try:
        r = op(t.t, o)
    except Exception:
        ctx.event("judged:refusal")
        return
    # a lazy sum may fail only when its dense form is asked for
    try:
        a = dense_of(r)
    except Exception:
        ctx.event("judged:refusal-late")
        return
    raise Violation("refusal", "%s of incompatible operands (%s) answered with shape %s"
                    % (op.__name__, kind, a.shape))


WORKLOADS = [
    ("construct", construct, 600, 6000), ("binary", binary, 1200, 20000),
    ("divide", divide, 600, 8000), ("optional", optional, 200, 3000),
    ("numbers", numbers, 600, 8000), ("arrays", arrays, 600, 8000),
    ("powers", powers, 300, 3000), ("ufuncs", ufuncs, 300, 3000),
    ("chain", chain, 800, 12000), ("refusals", refusals, 200, 2000)]
