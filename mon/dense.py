"""
Dense reference for the tensors of maxlike.

A tensor has four groups of axes: parameters x, parameters y, values n, extra
dims. A group that an operand lacks (0 axes) is broadcasted. The reference of a
tensor is a numpy array with the axes (x, y, n, dim), together with the number
of axes of each group.
"""
from array import array
import numpy as np
from maxlike.tensor.tensor import Tensor, GenericTensor, BaseTensor


def groups(t):
    return (t.x_dim, t.y_dim, t.n, t.dim)


def dense_of(t):
    """what the code says the tensor stands for"""
    return np.asarray(t.toarray(), dtype=float)


def expand(values, x_dim, y_dim, dim, x_map, y_map):
    """
    Independent expansion of a compressed array: the entry with parameter
    index i and value index j is zero unless i agrees with j on mapped axes.
    """
    v = np.asarray(values, dtype=float)
    n = v.ndim - x_dim - y_dim - dim
    p = x_dim + y_dim
    pairs = [(k, p + f) for k, f in enumerate(x_map or []) if f >= 0]
    pairs += [(x_dim + k, p + f) for k, f in enumerate(y_map or []) if f >= 0]
    shape = list(v.shape)
    for k, f in pairs:
        shape[k] = v.shape[f]
    out = np.array(np.broadcast_to(v, shape))
    if pairs:
        grid = np.indices(shape, sparse=True)
        for k, f in pairs:
            out = np.where(grid[k] == grid[f], out, 0.)
    return out


def align(a, have, want):
    """inserts axes of length one for the groups that are missing"""
    a = np.asarray(a, dtype=float)
    idx = []
    for h, w in zip(have, want):
        if h == w:
            idx += [slice(None)] * h
        elif h == 0:
            idx += [None] * w
        else:
            raise ValueError("groups %s instead of %s" % (have, want))
    return a[tuple(idx)]


class T:
    """a tensor of the library with its reference"""

    def __init__(self, t, a, g):
        self.t, self.a, self.g = t, np.asarray(a, dtype=float), tuple(g)

    def kind(self):
        if isinstance(self.t, GenericTensor):
            return "G"
        return "M" if (self.t.x_map or self.t.y_map) else "T"

    def to(self, g):
        return align(self.a, self.g, g)


class Space:
    """sizes of the four groups of axes"""

    def __init__(self, ctx, n=None, d=None, x=None, y=None, max_n=3, max_p=2,
                 extra=5, huge=True):
        rng = ctx.rng
        self.ctx = ctx
        if ctx.chance(.08):
            max_n, max_p = max_n + 1, max_p + 1
        n = ctx.randint(0, max_n) if n is None else n
        d = ctx.randint(0, 3 if ctx.chance(.08) else 2) if d is None else d
        x = ctx.randint(0, max_p) if x is None else x
        y = ctx.randint(0, max_p) if y is None else y
        self.N = [ctx.randint(2, 4) for _ in range(n)]
        self.D = [ctx.randint(2, 3) for _ in range(d)]
        if np.prod([float(i) for i in self.N + self.D]) * 4. ** (x + y) > 2e5:
            self.N, self.D = [2] * n, [2] * d
        if ctx.chance(.2):
            # axes of the same length, so that mixed up axes go unnoticed
            k = ctx.randint(1, 3) if n + d + x + y <= 6 else 2
            self.N, self.D, extra = [k] * n, [k] * d, k
        if n and n + d + x + y <= 4 and ctx.chance(.08):
            # one long axis
            self.N = [2] * n
            self.N[ctx.randint(0, n - 1)] = ctx.randint(8, 24)
        elif huge and n and n + d + x + y <= 3 and ctx.chance(.05):
            # one very long axis
            self.N, self.D = [2] * n, [2] * d
            self.N[ctx.randint(0, n - 1)] = ctx.randint(60, 300)
        pick = lambda: ctx.choice(self.N) if self.N and ctx.chance(.85) else extra
        self.X = [pick() for _ in range(x)]
        self.Y = [pick() for _ in range(y)]
        self.shorten()
        # magnitude of the values
        self.mag = 10. ** ctx.randint(-18, 9) if ctx.chance(.1) else 1.

    def shorten(self):
        """at most one long parameter axis, when there is a long value axis"""
        if max(self.N, default=0) > 4:
            # at most one parameter axis as long
            seen = 0
            for axes in (self.X, self.Y):
                for i, l in enumerate(axes):
                    if l > 4:
                        seen += 1
                        if seen > 1:
                            axes[i] = 2

    @property
    def g(self):
        return (len(self.X), len(self.Y), len(self.N), len(self.D))

    @property
    def shape(self):
        return tuple(self.X + self.Y + self.N + self.D)

    def mapping(self, sizes, p=.8):
        """maps some of the parameter axes to distinct value axes"""
        ctx, m, used = self.ctx, [], set()
        for s in sizes:
            c = [f for f, l in enumerate(self.N) if l == s and f not in used]
            f = ctx.choice(c) if c and ctx.chance(p) else -1
            if f >= 0:
                used.add(f)
            m.append(f)
        return m if any(f >= 0 for f in m) else None

    def tensor(self, full=False, mapped=.7, bcast=.25, positive=True,
               x=None, y=None, n=None, d=None):
        """random (compressed) tensor; some groups and axes may be missing"""
        ctx = self.ctx
        on = lambda want, p: want if want is not None else (full or ctx.chance(p))
        xo, yo = on(x, .75), on(y, .75)
        no, do = on(n, .9), on(d, .7)
        X, Y = self.X if xo else [], self.Y if yo else []
        N, D = self.N if no else [], self.D if do else []
        xm = self.mapping(X) if X and no and ctx.chance(mapped) else None
        ym = self.mapping(Y) if Y and no and ctx.chance(mapped) else None
        shape = [1 if xm and xm[k] >= 0 else s for k, s in enumerate(X)]
        shape += [1 if ym and ym[k] >= 0 else s for k, s in enumerate(Y)]
        used = set(xm or []) | set(ym or [])
        shape += [1 if k not in used and ctx.chance(bcast) else s
                  for k, s in enumerate(N)]
        shape += [1 if ctx.chance(bcast * .5) else s for s in D]
        v = ctx.rng.uniform(.5, 2, shape) * getattr(self, "mag", 1.)
        if not positive:
            v = v * ctx.rng.choice([-1, 1], shape)
        t = Tensor(v, x_dim=len(X), y_dim=len(Y), dim=len(D),
                   x_map=array('b', xm) if xm else None,
                   y_map=array('b', ym) if ym else None)
        a = expand(v, len(X), len(Y), len(D), xm, ym)
        ctx.note("tensor groups", (len(X), len(Y), len(N), len(D)), "shape",
                 tuple(shape), "maps", xm, ym)
        ctx.sig(tuple(shape), tuple(xm or ()), tuple(ym or ()))
        return T(t, a, (len(X), len(Y), len(N), len(D)))

    def sum_of(self, k, full_first=True, **kw):
        """sum / difference of k random tensors, usually heterogeneous"""
        ctx = self.ctx
        r = self.tensor(full=full_first, **kw)
        for _ in range(k - 1):
            o = self.tensor(**kw)
            minus = ctx.chance(.4)
            g = tuple(max(p, q) for p, q in zip(r.g, o.g))
            ctx.note("minus" if minus else "plus")
            a = r.to(g) - o.to(g) if minus else r.to(g) + o.to(g)
            t = ctx.call("addition", lambda: r.t - o.t if minus else r.t + o.t)
            r = T(t, a, g)
        return r


def judge(ctx, t, a, g, kind, rtol=1e-9, exact_groups=False, unit=1.):
    """
    The tensor t of the library has to stand for the reference a, with groups
    g. Groups can be missing only if they are constant (null tensors). The
    precision is relative to the magnitude of a, and of the terms (unit).
    """
    ctx.check(isinstance(t, BaseTensor), kind + ":type",
              lambda: "result is a %s" % type(t))
    have = groups(t)
    for h, w in zip(have, g):
        ctx.check(h == w or (h == 0 and not exact_groups), kind + ":groups",
                  lambda: "groups %s instead of %s" % (have, g))
    got = dense_of(t)
    ctx.check(got.ndim == sum(have), kind + ":axes",
              lambda: "%d axes but groups %s" % (got.ndim, have))
    got = align(got, have, g)
    a = np.asarray(a, dtype=float)
    shape = np.broadcast_shapes(got.shape, a.shape)
    ctx.check(all(s == 1 or s == w or w == 1 for s, w in zip(got.shape, a.shape)),
              kind + ":shape", lambda: "shape %s instead of %s" % (got.shape, a.shape))
    scale = max(unit, float(np.max(np.abs(a))) if a.size else unit)
    ctx.close(np.broadcast_to(got, shape), np.broadcast_to(a, shape), kind,
              rtol=rtol, atol=rtol * scale)
