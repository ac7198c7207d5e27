"""C02: reductions and axis manipulations vs the dense reference."""
import numpy as np
from .core import Violation, Skip
from .dense import *

RULE = ("random (compressed, partially compressed, dense and summed) tensors with unequal "
        "axis sizes; every reduction selection, expansion position, flip, transposition and "
        "merge of the extra axes is compared cell by cell with the numpy reference. Distinct "
        "by shapes, mappings and selections.")


def operand(ctx, **kw):
    s = Space(ctx, **kw)
    if ctx.chance(.5):
        return s, s.tensor(positive=False)
    if ctx.chance(.25):
        # many terms, that lack most of the axes
        return s, s.sum_of(ctx.randint(4, 9), positive=False, bcast=.8,
                           full_first=ctx.chance(.3))
    return s, s.sum_of(ctx.choice([2, 2, 3, 3, 4, 6]), positive=False,
                       full_first=ctx.chance(.7), bcast=ctx.choice([.25, .6]))


def sums(ctx):
    s, t = operand(ctx)
    x, y, n, d = t.g
    p = x + y
    na, da = tuple(range(p, p + n)), tuple(range(p + n, p + n + d))
    for sv in (True, False):
        for sd in (True, False):
            ax = (na if sv else ()) + (da if sd else ())
            judge(ctx, ctx.call("sum", t.t.sum, sv, sd), t.a.sum(ax) if ax else t.a,
                  (x, y, 0 if sv else n, 0 if sd else d), "sum(%s,%s)" % (sv, sd),
                  exact_groups=True, unit=s.mag)
    judge(ctx, ctx.call("sum", t.t.sum), t.a.sum(na + da), (x, y, 0, 0), "sum()",
          exact_groups=True, unit=s.mag)
    judge(ctx, ctx.call("sum", lambda: t.t.sum(sum_val=True, sum_dim=False)),
          t.a.sum(na), (x, y, 0, d), "sum(kw)", exact_groups=True, unit=s.mag)
    if n:
        for _ in range(2):
            sv = ctx.sample(n, ctx.randint(1, n))
            sd = ctx.chance(.5)
            ax = tuple(p + k for k in sv) + (da if sd else ())
            form = ctx.choice(["list", "tuple", "int"])
            arg = sv[0] if form == "int" and len(sv) == 1 else \
                tuple(sv) if form == "tuple" else list(sv)
            ctx.note("sum", arg, sd); ctx.sig(tuple(sv), sd)
            judge(ctx, ctx.call("sum", t.t.sum, arg, sd), t.a.sum(ax),
                  (x, y, n - len(sv), 0 if sd else d), "partial-sum", exact_groups=True, unit=s.mag)


def place(a, first, where, size):
    """axes first.. go to the positions 'where' of 'size' axes"""
    k = len(where)
    order = np.argsort(where)
    b = a.transpose(list(range(first)) + [first + int(o) for o in order] +
                    list(range(first + k, a.ndim)))
    idx = [slice(None)] * first + \
        [slice(None) if q in where else None for q in range(size)]
    return b[tuple(idx) + (Ellipsis,)]


def expands(ctx):
    s, t = operand(ctx)
    x, y, n, d = t.g
    size = n + ctx.randint(0, 2)
    where = ctx.sample(size, n)
    ctx.note("expand", where, size); ctx.sig(tuple(where), size)
    judge(ctx, ctx.call("expand", t.t.expand, where, size),
          place(t.a, x + y, where, size), (x, y, size, d), "expand", exact_groups=True, unit=s.mag)
    size = d + ctx.randint(0, 2)
    where = ctx.sample(size, d)
    ctx.note("expand dim", where, size); ctx.sig(tuple(where), size)
    judge(ctx, ctx.call("expand-dim", t.t.expand, where, size, dim=True),
          place(t.a, x + y + n, where, size), (x, y, n, size), "expand-dim",
          exact_groups=True, unit=s.mag)


def flips(ctx):
    s, t = operand(ctx)
    x, y, n, d = t.g
    judge(ctx, ctx.call("flip-none", t.t.flip, None), t.a, t.g, "flip-none",
          exact_groups=True, unit=s.mag)
    if d:
        ax = ctx.sample(d, ctx.randint(1, d))
        arg = ax[0] if len(ax) == 1 and ctx.chance(.5) else ax
        ctx.note("flip dim", arg); ctx.sig("d", tuple(ax))
        judge(ctx, ctx.call("flip-dim", t.t.flip, arg, dim=True),
              np.flip(t.a, [x + y + n + k for k in ax]), t.g, "flip-dim",
              exact_groups=True, unit=s.mag)
    if n:
        ax = ctx.sample(n, ctx.randint(1, n))
        arg = ax[0] if len(ax) == 1 and ctx.chance(.5) else ax
        ctx.note("flip", arg); ctx.sig("n", tuple(ax))
        want = np.flip(t.a, [x + y + k for k in ax])
        try:
            got = t.t.flip(arg)
        except Exception:
            # only flips along a tied axis may be refused
            els = getattr(t.t, "elements", None) or [t.t]
            tied = any(k in list(e.x_map or []) + list(e.y_map or [])
                       for e in els for k in ax)
            ctx.check(tied, "flip-refused", "flip of an axis that is not tied")
            return
        judge(ctx, got, want, t.g, "flip", exact_groups=True, unit=s.mag)


def transposes(ctx):
    s, t = operand(ctx)
    x, y, n, d = t.g
    want = t.a.transpose(list(range(x, x + y)) + list(range(x)) +
                         list(range(x + y, t.a.ndim)))
    r = ctx.call("transpose", t.t.transpose)
    judge(ctx, r, want, (y, x, n, d), "transpose", exact_groups=True, unit=s.mag)
    judge(ctx, ctx.call("transpose", r.transpose), t.a, t.g, "transpose-twice",
          exact_groups=True, unit=s.mag)
    judge(ctx, ctx.call("drop_dim", t.t.drop_dim), t.a, (x, y, n + d, 0), "drop_dim",
          exact_groups=True, unit=s.mag)


def chains(ctx):
    """combinations of manipulations, additions and products"""
    s, t = operand(ctx)
    for _ in range(ctx.randint(2, 5)):
        x, y, n, d = t.g
        op = ctx.choice(["T", "drop", "exp", "expd", "sum", "neg", "add", "flipd", "mul", "mulp",
                         "mulp"])
        ctx.note(op); ctx.sig(op)
        if op == "T":
            t = T(ctx.call(op, t.t.transpose), t.a.transpose(
                list(range(x, x + y)) + list(range(x)) +
                list(range(x + y, t.a.ndim))), (y, x, n, d))
        elif op == "drop":
            t = T(ctx.call(op, t.t.drop_dim), t.a, (x, y, n + d, 0))
        elif op == "exp":
            size = n + ctx.randint(0, 1)
            w = ctx.sample(size, n)
            t = T(ctx.call(op, t.t.expand, w, size), place(t.a, x + y, w, size),
                  (x, y, size, d))
        elif op == "expd":
            size = d + ctx.randint(0, 1)
            w = ctx.sample(size, d)
            t = T(ctx.call(op, t.t.expand, w, size, dim=True),
                  place(t.a, x + y + n, w, size), (x, y, n, size))
        elif op == "sum":
            if not n:
                continue
            sv = ctx.sample(n, ctx.randint(1, n))
            sd = ctx.chance(.3)
            ax = tuple(x + y + k for k in sv)
            if sd:
                ax += tuple(range(x + y + n, x + y + n + d))
            t = T(ctx.call(op, t.t.sum, sv, sd), t.a.sum(ax),
                  (x, y, n - len(sv), 0 if sd else d))
        elif op == "flipd":
            if not d:
                continue
            k = ctx.randint(0, d - 1)
            t = T(ctx.call(op, t.t.flip, k, dim=True), np.flip(t.a, x + y + n + k), t.g)
        elif op == "neg":
            t = T(-t.t, -t.a, t.g)
        elif op == "add":
            t = T(ctx.call(op, lambda: t.t + t.t), 2 * t.a, t.g)
        elif op == "mulp":
            # by a tensor with parameter axes of its own
            sh = t.a.shape
            o = Space.__new__(Space)
            o.ctx = ctx
            o.X, o.Y = list(sh[:x]), list(sh[x:x + y])
            o.N, o.D = list(sh[x + y:x + y + n]), list(sh[x + y + n:])
            o = o.tensor(positive=False, n=ctx.chance(.6), bcast=ctx.choice([0, .3]))
            t = T(ctx.call(op, lambda: t.t * o.t), t.a * o.to(t.g), t.g)
        else:
            sh = [1 if ctx.chance(.3) else k for k in t.a.shape[x + y:]]
            v = ctx.rng.uniform(.5, 2, sh)
            o = Tensor(v, dim=d)
            g = (x, y, n, d)
            t = T(ctx.call(op, lambda: t.t * o), t.a * align(v, (0, 0, n, d), g), g)
        judge(ctx, t.t, t.a, t.g, "chain:" + op, rtol=1e-8, exact_groups=True, unit=s.mag)


WORKLOADS = [("sums", sums, 2500, 40000), ("expands", expands, 2000, 25000),
             ("flips", flips, 1500, 15000), ("transposes", transposes, 1500, 20000),
             ("chains", chains, 2000, 30000)]
