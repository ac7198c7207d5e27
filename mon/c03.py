"""C03: contractions vs numpy.einsum on the dense references."""
import numpy as np
from .core import Violation, Skip
from .dense import *

RULE = ("random pairs of tensors whose value axes match the parameter axes of the other, with "
        "independent complete/partial/no mappings, extra axes on either side and sums of "
        "heterogeneous tensors, contracted with dot, dot_left and dot_right and compared cell "
        "by cell with numpy.einsum. Distinct by shapes, mappings and the contraction.")


def einsum(spec, *ops):
    return np.einsum(spec, *ops)


def letters(*counts):
    alphabet = "abcdefghijklmnopqrstuvwxyz"
    out, k = [], 0
    for c in counts:
        out.append(alphabet[k:k + c]); k += c
    return out


class Side(Space):
    """operands with value axes of given sizes"""

    def __init__(self, ctx, N, D, x, y, mag=1.):
        self.ctx = ctx
        self.N, self.D = list(N), list(D)
        pick = lambda: ctx.choice(self.N) if self.N and ctx.chance(.85) else 5
        self.X = [pick() for _ in range(x)]
        self.Y = [pick() for _ in range(y)]
        self.shorten()
        self.mag = mag


def build(ctx, s, bcast=.15):
    if ctx.chance(.65):
        return s.tensor(full=True, bcast=bcast, positive=False)
    t = s.tensor(full=True, bcast=bcast, positive=False)
    for _ in range(ctx.randint(1, 2)):
        o = s.tensor(full=True, bcast=bcast, positive=False)
        t = T(ctx.call("addition", lambda: t.t + o.t), t.a + o.a, t.g)
    return t


def full(a, g, shape):
    return np.broadcast_to(a, shape)


def left(ctx):
    """
    self  (X, Y, N, E) . other (A, 0, X, E') -> (A, Y, N, E)
    """
    x, y = ctx.choice([0, 1, 1, 1, 2, 2, 2, 3]), ctx.randint(0, 2)
    n, d = ctx.choice([0, 1, 1, 2, 2, 3]), ctx.randint(0, 2)
    s = Space(ctx, n=n, d=d, x=x, y=y, huge=False)
    D = list(s.D)
    od = d if ctx.chance(.5) else 0
    if od and ctx.chance(.4):
        # only the other operand has extra axes
        s.D = []
    f = build(ctx, s)
    o = Side(ctx, s.X, D[:od], ctx.randint(0, 3), 0)
    g = build(ctx, o)
    A = np.broadcast_to(f.a, s.shape)
    B = np.broadcast_to(g.a, o.shape)
    lx, ly, ln, ld, la = letters(x, y, n, d, len(o.X))
    spec = "%s,%s->%s" % (lx + ly + ln + ld[:len(s.D)], la + lx + ld[:od], la + ly + ln + ld)
    want = einsum(spec, A, B)
    gr = (len(o.X), y, n, d)
    ctx.note("dot_left", spec); ctx.sig(spec, f.kind(), g.kind())
    judge(ctx, ctx.call("dot_left", f.t.dot_left, g.t), want, gr, "dot_left", unit=s.mag)
    if x and (y == 0 or y != len(s.X)):
        # dot chooses the product from the axes of the operands
        judge(ctx, ctx.call("dot", f.t.dot, g.t), want, gr, "dot", unit=s.mag)


def left_y(ctx):
    """contraction of the second parameter group, through transposition"""
    x, y = ctx.randint(1, 2), ctx.randint(1, 2)
    if x == y:
        x = 3 - y
    n, d = ctx.randint(0, 2), ctx.randint(0, 1)
    s = Space(ctx, n=n, d=d, x=x, y=y, huge=False)
    f = build(ctx, s)
    o = Side(ctx, s.Y, [], ctx.randint(0, 2), 0)
    g = build(ctx, o)
    A, B = np.broadcast_to(f.a, s.shape), np.broadcast_to(g.a, o.shape)
    lx, ly, ln, ld, la = letters(x, y, n, d, len(o.X))
    # self is transposed first: (Y, X, N, E) . (A, Y) -> (A, X, N, E)
    spec = "%s,%s->%s" % (lx + ly + ln + ld, la + ly, la + lx + ln + ld)
    ctx.note("dot_left-y", spec); ctx.sig(spec, f.kind(), g.kind())
    judge(ctx, ctx.call("dot_left-y", f.t.dot_left, g.t), einsum(spec, A, B),
          (len(o.X), x, n, d), "dot_left-y", unit=s.mag)


def dispatch(ctx):
    """dot finds the group to contract from the axes of both operands"""
    which = ctx.choice(["vector-y", "second", "hessian-y"])
    n, d = ctx.randint(0, 2), ctx.randint(0, 1)
    x, y = (0, ctx.randint(1, 2)) if which == "hessian-y" else \
        ctx.choice([(1, 2), (2, 1), (1, 3)]) if which == "vector-y" else \
        (ctx.randint(0, 2), ctx.randint(1, 2))
    s = Space(ctx, n=n, d=d, x=x, y=y, huge=False)
    f = build(ctx, s)
    a, b = {"vector-y": (0, 0), "second": (0, ctx.randint(1, 2)),
            "hessian-y": (ctx.randint(1, 2), ctx.randint(1, 2))}[which]
    o = Side(ctx, s.Y, [], a, b)
    g = build(ctx, o)
    A, B = np.broadcast_to(f.a, s.shape), np.broadcast_to(g.a, o.shape)
    lx, ly, ln, ld, la, lb = letters(x, y, n, d, a, b)
    if which == "vector-y":
        out, gr = lx + ln + ld, (0, x, n, d)
    elif which == "second":
        out, gr = lx + lb + ln + ld, (x, b, n, d)
    else:
        out, gr = la + lb + ln + ld, (a, b, n, d)
    spec = "%s,%s->%s" % (lx + ly + ln + ld, la + lb + ly, out)
    ctx.note("dot", which, spec); ctx.sig(which, spec, f.kind(), g.kind())
    judge(ctx, ctx.call("dot", f.t.dot, g.t), einsum(spec, A, B), gr, "dot:" + which, unit=s.mag)


def both(ctx):
    """the second order chain rule product: f.(dg).T.(dh).T"""
    x, y = ctx.randint(1, 2), ctx.randint(1, 2)
    n, d = ctx.randint(0, 2), ctx.randint(0, 1)
    s = Space(ctx, n=n, d=d, x=x, y=y, huge=False)
    f = build(ctx, s)
    o1, o2 = Side(ctx, s.X, [], ctx.randint(1, 2), 0), Side(ctx, s.Y, [], ctx.randint(1, 2), 0)
    g, h = build(ctx, o1), build(ctx, o2)
    A = np.broadcast_to(f.a, s.shape)
    B, C = np.broadcast_to(g.a, o1.shape), np.broadcast_to(h.a, o2.shape)
    lx, ly, ln, ld, la, lb = letters(x, y, n, d, len(o1.X), len(o2.X))
    spec = "%s,%s,%s->%s" % (lx + ly + ln + ld, la + lx, lb + ly, la + lb + ln + ld)
    ctx.note("chain", spec); ctx.sig(spec, f.kind(), g.kind(), h.kind())
    r = ctx.call("chain", lambda: f.t.dot_left(g.t).transpose().dot_left(h.t).transpose())
    judge(ctx, r, einsum(spec, A, B, C), (len(o1.X), len(o2.X), n, d), "chain", unit=s.mag)


def right(ctx):
    """
    self (X, 0, N, E) . other (A, B, X, E') -> (A, B, N, E)
    """
    x = ctx.choice([0, 1, 1, 1, 2, 2, 2, 3])
    n, d = ctx.choice([0, 1, 1, 2, 2, 3]), ctx.randint(0, 2)
    s = Space(ctx, n=n, d=d, x=x, y=0, huge=False)
    D = list(s.D)
    od = d if ctx.chance(.5) else 0
    if od and ctx.chance(.4):
        s.D = []
    f = build(ctx, s)
    o = Side(ctx, s.X, D[:od], ctx.randint(0, 3), ctx.randint(0, 2))
    g = build(ctx, o)
    A, B = np.broadcast_to(f.a, s.shape), np.broadcast_to(g.a, o.shape)
    lx, ln, ld, la, lb = letters(x, n, d, len(o.X), len(o.Y))
    spec = "%s,%s->%s" % (lx + ln + ld[:len(s.D)], la + lb + lx + ld[:od], la + lb + ln + ld)
    want = einsum(spec, A, B)
    gr = (len(o.X), len(o.Y), n, d)
    ctx.note("dot_right", spec); ctx.sig(spec, f.kind(), g.kind())
    judge(ctx, ctx.call("dot_right", f.t.dot_right, g.t), want, gr, "dot_right", unit=s.mag)
    if x and o.X and o.Y:
        judge(ctx, ctx.call("dot", f.t.dot, g.t), want, gr, "dot", unit=s.mag)


def null(ctx):
    """contractions with a null tensor are null"""
    x, y = ctx.randint(1, 2), ctx.randint(0, 1)
    s = Space(ctx, n=ctx.randint(0, 2), d=ctx.randint(0, 1), x=x, y=y, huge=False)
    f = build(ctx, s)
    o = Side(ctx, s.X, [], 1, 0)
    g = build(ctx, o)
    z = Tensor(0)
    for name, fn in [("f.0", lambda: f.t.dot_left(z)), ("0.g", lambda: z.dot_left(g.t)),
                     ("0.0", lambda: z.dot_left(z)), ("0r", lambda: z.dot_right(g.t))] + (
                    [("r0", lambda: f.t.dot_right(z))] if not y else []):
        r = ctx.call("null", fn)
        ctx.close(np.max(np.abs(dense_of(r))), 0., "null:" + name)
    ctx.sig(f.kind(), g.kind(), s.shape)


def linear(ctx):
    """products of sums are sums of products, whatever the representation"""
    s = Space(ctx, n=ctx.randint(0, 2), d=ctx.randint(0, 1), x=ctx.randint(1, 2), y=0, huge=False)
    f1, f2 = build(ctx, s), build(ctx, s)
    o = Side(ctx, s.X, [], ctx.randint(1, 2), 0)
    g1, g2 = build(ctx, o), build(ctx, o)
    A = np.broadcast_to(f1.a, s.shape) - np.broadcast_to(f2.a, s.shape)
    B = np.broadcast_to(g1.a, o.shape) + np.broadcast_to(g2.a, o.shape)
    lx, ln, ld, la = letters(len(s.X), len(s.N), len(s.D), len(o.X))
    spec = "%s,%s->%s" % (lx + ln + ld, la + lx, la + ln + ld)
    gr = (len(o.X), 0, len(s.N), len(s.D))
    ctx.note("linear", spec); ctx.sig(spec, f1.kind(), f2.kind(), g1.kind(), g2.kind())
    judge(ctx, ctx.call("linear", lambda: (f1.t - f2.t).dot_left(g1.t + g2.t)),
          einsum(spec, A, B), gr, "linear", unit=s.mag)


WORKLOADS = [("left", left, 2500, 40000), ("left_y", left_y, 1000, 12000), ("dispatch", dispatch, 800, 10000),
             ("both", both, 1500, 25000), ("right", right, 2000, 35000),
             ("null", null, 400, 4000), ("linear", linear, 800, 12000)]
