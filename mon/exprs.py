"""
Random function expressions of maxlike with independent references.

The reference of an expression is a function of a list of numpy arrays with one
leading batch axis (possibly complex, so that derivatives can be taken with
complex steps) that returns an array with the axes (batch, features, dims).
"""
import numpy as np
from scipy.special import gammaln
from .core import Skip
import maxlike
from maxlike.func import (
    X, Constant, Scalar, Vector, Linear, Quadratic, Exp, Log, Sum, Product,
    Collapse, Compose, Affine, FuncWrap, Poisson, LogNegativeBinomial,
    NegativeBinomial, MarkovMatrix, MarkovVector, CollapseMatrix, Sigmoid,
    Logistic, ArcTan)
from maxlike.func.tennis import Game, TieBreak, Set
from maxlike.func.func_base import Func, grad_tensor, hess_tensor
from maxlike.tensor import Tensor


# ---------------------------------------------------------------------------
# reference semantics
# ---------------------------------------------------------------------------
def put(a, n, d, feat, n_feat, dim, n_dim):
    """places n features / d dims at the positions feat / dim"""
    fo, do = np.argsort(feat), np.argsort(dim)
    a = a.transpose([0] + [1 + int(k) for k in fo] + [1 + n + int(k) for k in do])
    idx = [slice(None)]
    idx += [slice(None) if k in feat else None for k in range(n_feat)]
    idx += [slice(None) if k in dim else None for k in range(n_dim)]
    return a[tuple(idx)]


class E:
    """expression: library function, reference, number of features and dims"""

    def __init__(self, f, ref, n, d, text):
        self.f, self.n, self.d, self.text = f, n, d, text

        def guarded(p):
            # saturating functions would hide numbers whose powers overflow
            v = ref(p)
            if not np.all(np.abs(v) < 1e30):
                raise Skip()
            return v
        self.ref = guarded


def unary(e, f, fn, text):
    return E(f, lambda p: fn(e.ref(p)), e.n, e.d, text)


def expit(x):
    pos = np.real(x) >= 0
    e = np.exp(-np.where(pos, x, -np.asarray(x)))
    return np.where(pos, 1., e) / (1 + e)


def decided(a):
    """a reference that overflowed decides nothing"""
    if not np.all(np.isfinite(a)):
        raise Skip()
    return a


def ref_poisson(a, size):
    x = np.arange(size)
    return a[..., None] ** x / np.exp(gammaln(x + 1))


def ref_lognb(m, size, r):
    x = np.arange(size)
    m = m[..., None]
    return gammaln(r + x) - gammaln(r) - gammaln(x + 1) + x * np.log(m) + \
        r * np.log(r) - (x + r) * np.log(r + m)


def ref_markov(a, b, size, steps, skew=None):
    """
    joint score: in every step at most one side scores, with the rate / steps
    times its skew factor; the last index absorbs
    """
    a, b = np.broadcast_arrays(a, b)
    s, t = a / steps, b / steps
    sk = np.ones((size, size)) if skew is None else skew
    P = np.zeros(a.shape + (size, size), dtype=np.result_type(a, b, float))
    P[..., 0, 0] = 1
    u = s[..., None, None] * sk
    v = t[..., None, None] * sk.T
    # absorbed: no move from the last index
    u = u.copy(); v = v.copy()
    u[..., size - 1, :] = 0
    v[..., :, size - 1] = 0
    for _ in range(steps):
        Q = P * (1 - u - v)
        Q[..., 1:, :] += (P * u)[..., :-1, :]
        Q[..., :, 1:] += (P * v)[..., :, :-1]
        P = Q
    return P


def ref_markov_vector(a, b, size, steps, skew=None):
    """score difference, index size - 1 is a draw, both ends absorb"""
    a, b = np.broadcast_arrays(a, b)
    m = 2 * size - 1
    sk = np.ones(m) if skew is None else skew
    u = (a / steps)[..., None] * sk
    v = (b / steps)[..., None] * sk[::-1]
    u = u.copy(); v = v.copy()
    u[..., m - 1] = 0
    v[..., 0] = 0
    P = np.zeros(a.shape + (m,), dtype=np.result_type(a, b, float))
    P[..., size - 1] = 1
    for _ in range(steps):
        Q = P * (1 - u - v)
        Q[..., 1:] += (P * u)[..., :-1]
        Q[..., :-1] += (P * v)[..., 1:]
        P = Q
    return P


def ref_collapse_matrix(a, conditions):
    i = np.arange(a.shape[-2])[:, None]
    j = np.arange(a.shape[-1])[None, :]
    out = []
    for x, y, c, s in conditions:
        z = x * i + y * j + c
        sel = (z > 0) if s > 0 else (z < 0) if s < 0 else (z == 0)
        out.append(np.where(sel, a, 0).sum((-1, -2)))
    return np.stack(out, -1)


WDL = [(1, -1, 0, 1), (1, -1, 0, 0), (1, -1, 0, -1)]


def scoring(p, target, cap=None):
    """
    probabilities that the first side wins 'target' to k, for k = 0 ..
    target - 2, and after target - 1 all, playing points one by one
    """
    q = 1 - p
    state = {(0, 0): np.ones_like(p)}
    won = {}
    frontier = [(0, 0)]
    while frontier:
        nxt = []
        for s in frontier:
            i, j = s
            w = state[s]
            if (i, j) == (target - 1, target - 1):
                won["deuce"] = w
                continue
            if i == target:
                won[j] = w
                continue
            if j == target:
                continue
            for t, pr in (((i + 1, j), p), ((i, j + 1), q)):
                if t not in state:
                    state[t] = 0 * p
                    nxt.append(t)
                state[t] = state[t] + w * pr
        frontier = nxt
    out = [won[k] for k in range(target - 1)]
    out.append(won["deuce"] * p * p / (1 - 2 * p * q))
    return np.stack(out, -1)


def ref_game(p):
    return scoring(p, 4)


def ref_tiebreak(p):
    return scoring(p, 7)


def ref_set(p, t):
    """6-0 .. 6-4, 7-5, 7-6"""
    p, t = np.broadcast_arrays(p, t)
    q = 1 - p
    state = {(0, 0): np.ones_like(p * t)}
    won = {}
    level = [(0, 0)]
    while level:
        nxt = []
        for s in level:
            i, j = s
            w = state[s]
            if (i, j) == (6, 6):
                won[(7, 6)] = w * t
                continue
            if (i == 6 and j <= 4) or i == 7:
                won[(i, j)] = w
                continue
            if (j == 6 and i <= 4) or j == 7:
                continue
            for u, pr in (((i + 1, j), p), ((i, j + 1), q)):
                if u not in state:
                    state[u] = 0 * w
                    nxt.append(u)
                state[u] = state[u] + w * pr
        level = nxt
    return np.stack([won[k] for k in
                     [(6, 0), (6, 1), (6, 2), (6, 3), (6, 4), (7, 5), (7, 6)]], -1)


# ---------------------------------------------------------------------------
# functions written by a user of the library
# ---------------------------------------------------------------------------
class Tilt(Func):
    """a * exp(b), an array a and a number b"""

    def __call__(self, params):
        return Tensor(np.asarray(params[0]) * np.exp(float(np.asarray(params[1]))))

    def grad(self, params, i):
        a, e = np.asarray(params[0]), np.exp(float(np.asarray(params[1])))
        return grad_tensor(a * e if i else e * np.ones_like(a), params, i, True)

    def hess(self, params, i, j):
        a, e = np.asarray(params[0]), np.exp(float(np.asarray(params[1])))
        if i == j == 0:
            return Tensor(0)
        return hess_tensor(a * e if j else e * np.ones_like(a), params, i, j, True, True)


class Table(Func):
    """table of a[i] * b[j] + a[i] ** 2 / 2"""

    def __call__(self, params):
        a, b = map(np.asarray, params)
        return Tensor(a[:, None] * (b + .5 * a[:, None]))

    def grad(self, params, i):
        a, b = map(np.asarray, params)
        one = np.ones((a.size, b.size))
        return grad_tensor(b + a[:, None], params, 0, [0]) if i == 0 else \
            grad_tensor(a[:, None] * one, params, 1, (1, ))

    def hess(self, params, i, j):
        one = np.ones((np.size(params[0]), np.size(params[1])))
        if i == j == 1:
            return Tensor(0)
        return hess_tensor(one, params, 0, 0, [0], (0, )) if i == 0 else \
            hess_tensor(one, params, 1, 0, (1, ), [0])


class Dense(Func):
    """sin(a) . W, without any diagonal structure"""

    def __init__(self, W):
        self.W = W

    def __call__(self, params):
        return Tensor(np.dot(np.sin(np.asarray(params[0])), self.W))

    def grad(self, params, i):
        return grad_tensor(np.cos(np.asarray(params[0]))[:, None] * self.W, params, i)

    def hess(self, params, i, j):
        a = np.asarray(params[0])
        return hess_tensor(-np.diag(np.sin(a))[:, :, None] * self.W[:, None, :],
                           params, i, j)


def moved(ctx, params, times=3):
    """
    the same parameters moved a little, one by one or together, in the same
    memory, in the same list or in new ones: (container, copies of its arrays)
    """
    how = ctx.choice(["memory", "memory", "list", "fresh"])
    work = [np.array(p, dtype=float) for p in params]
    c = list(work)
    ctx.note("used again in", how)
    ctx.sig(how)
    for k in range(times):
        if k:
            q = [w * ctx.rng.uniform(.85, 1, w.shape) if ctx.chance(.6) else w.copy()
                 for w in work]
            if how == "memory":
                for w, v in zip(work, q):
                    w[...] = v
            else:
                work = q
                if how == "list":
                    c[:] = q
                else:
                    c = list(q)
            ctx.event("evaluations of one object")
        yield c, [w.copy() for w in work]


# ---------------------------------------------------------------------------
# generator
# ---------------------------------------------------------------------------
class Gen:
    """
    F: sizes of the features, P: shapes of the parameters
    """

    def __init__(self, ctx, max_feat=3, max_par=3, heavy=True):
        self.ctx = ctx
        self.heavy = heavy

    def problem(self, max_feat=3, max_par=3, min_feat=1):
        ctx = self.ctx
        F = [ctx.randint(2, 4) for _ in range(ctx.randint(min_feat, max_feat))]
        large = F and ctx.chance(.05)
        if large:
            F = F[:2]
            F[0] = ctx.randint(8, 20)
        P = []
        for _ in range(ctx.randint(1, max_par)):
            k = ctx.choice([0, 1, 1, 1, 2, 2, 3])
            k = min(k, len(F))
            P.append(tuple(F[i] for i in ctx.sample(len(F), k)))
        while np.prod([1] + [s for p in P for s in p]) > 4000 or \
                sum(int(np.prod(p)) for p in P) > (44 if large else 26):
            P = P[:-1] if len(P) > 1 else [(F[0],)]
        return F, P

    def problem_wide(self):
        """many features, a long one, and many parameters"""
        ctx = self.ctx
        kind = ctx.choice(["long", "long", "many", "plain"])
        if kind == "long":
            F = [ctx.randint(6, 16)] + [ctx.randint(2, 3) for _ in range(ctx.randint(0, 2))]
            F = [F[i] for i in ctx.perm(len(F))]
        elif kind == "many":
            F = [ctx.randint(1, 3) for _ in range(ctx.randint(4, 6))]
        else:
            F = [ctx.randint(2, 4) for _ in range(ctx.randint(1, 3))]
        P, total = [], 0
        for _ in range(ctx.randint(4, 9)):
            k = min(ctx.choice([0, 0, 1, 1, 1, 2, 2, 3]), len(F))
            q = tuple(F[i] for i in ctx.sample(len(F), k))
            if total + int(np.prod(q)) > 40:
                q = ()
            total += int(np.prod(q))
            P.append(q)
        return F, P

    def wide(self, F, P, depth):
        """expressions of many terms with many parameters"""
        ctx, N = self.ctx, len(F)
        parts, s = [], Sum(N)
        todo = ctx.perm(len(P)) + [None] * ctx.randint(1, 4)
        for k in [todo[i] for i in ctx.perm(len(todo))]:
            if k is not None:
                e, q, w = self.atom(F, [P[k]])
                pm = [k for _ in q]
                e = self.decorate(e)
            else:
                # products of two to six of them
                m = ctx.randint(2, min(6, len(P)))
                pm = ctx.sample(len(P), m) if ctx.chance(.7) else \
                    [ctx.randint(0, len(P) - 1) for _ in range(m)]
                w = ctx.perm(N) if ctx.chance(.5) else ctx.sample(N, ctx.randint(1, N))
                G = [F[i] for i in w]
                f, sub = Product(len(G)), []
                for i, q in enumerate(pm):
                    a, r, v = self.atom(G, [P[q]])
                    f.add(a.f, [i for _ in r], v)
                    sub.append((a, [i for _ in r], v))
                    if ctx.chance(.1):
                        # the very same factor again
                        f.add(a.f, [i for _ in r], v)
                        sub.append((a, [i for _ in r], v))

                def ref(p, sub=sub, n=len(G)):
                    out = 1.
                    for a, r, v in sub:
                        out = out * put(a.ref([p[i] for i in r]), a.n, 0, v, n, [], 0)
                    return out + np.zeros((1,) * (n + 1))
                e = E(f, ref, len(G), 0, "Prod(%s)" % "; ".join(
                    "%s p%s f%s" % (a.text, r, v) for a, r, v in sub))
            c = ctx.choice([1., -1., .5, 2.])
            s.add(e.f, self.arg(pm), self.arg(w), weight=c)
            parts.append((c, e, pm, w))
            if ctx.chance(.12):
                # the very same term again
                s.add(e.f, pm, w, weight=c)
                parts.append((c, e, pm, w))
        ref = lambda p: sum(c * put(e.ref([p[k] for k in pm]), e.n, 0, w, N, [], 0)
                            for c, e, pm, w in parts) + np.zeros((1,) * (N + 1))
        e = E(s, ref, N, 0, "Sum(%s)" % "; ".join(
            "%s*%s p%s f%s" % (c, a.text, pm, w) for c, a, pm, w in parts))
        top = ctx.choice(["plain", "plain", "wrap", "counts", "inner", "again"])
        if top == "wrap":
            return self.wrap(e)
        if top == "counts":
            size = ctx.randint(2, 3)
            f = (.1 + 2 * Logistic()) @ e.f
            return E(Poisson(size) @ f, lambda p: ref_poisson(
                .1 + 2 * expit(e.ref(p)), size), N, 1, "Poisson(%d)@(%s)" % (size, e.text))
        if top == "inner":
            # function of three to five expressions
            c = ctx.rng.uniform(-.5, .5, F)
            full = Sum(N).add(e.f, list(range(len(P))), list(range(N))).add(
                Constant(c), [], list(range(N)))
            gs = [E(full, lambda p: e.ref(p) + c, N, 0, "(%s)+C" % e.text)]
            gs += [self.full(F, P, 0) for _ in range(ctx.randint(2, 4))]
            gs = [self.wrap(g) for g in gs]
            gs = [gs[i] for i in ctx.perm(len(gs))]
            if ctx.chance(.2):
                gs[0] = gs[-1]      # one function in two places
            f = self.outer(N, len(gs))
            return E(f.f @ [g.f for g in gs], lambda p: f.ref([g.ref(p) for g in gs]), N, 0,
                     "%s@[%s]" % (f.text, ", ".join(g.text for g in gs)))
        if top == "again":
            # nested, with parameters and features in another order
            pm, fm = ctx.perm(len(P)), ctx.perm(N)
            inv = [pm.index(k) for k in range(len(P))]
            G = [F[i] for i in fm]
            f = Sum(N).add(e.f, inv, fm)
            # now parameter inv[k] takes the place of k
            if [F[i] for i in fm] != F or [P[i] for i in inv] != P:
                return e
            return E(f, lambda p: put(e.ref([p[k] for k in inv]), N, 0, fm, N, [], 0), N, 0,
                     "Sum(%s p%s f%s)" % (e.text, inv, fm))
        return e

    def values(self, P, lo=-1., hi=1.):
        return [self.ctx.rng.uniform(lo, hi, p) for p in P]

    # ---- leaves ----------------------------------------------------------
    def places(self, F, shape):
        """an ordered choice of distinct features with the given sizes"""
        ctx, out, free = self.ctx, [], list(range(len(F)))
        for s in shape:
            c = [k for k in free if F[k] == s]
            if not c:
                return None
            k = ctx.choice(c)
            free.remove(k)
            out.append(k)
        return out

    def decorate(self, e):
        """affine variations written with the operators"""
        ctx = self.ctx
        f, ref, t = e.f, e.ref, e.text
        a = ctx.choice([2, -1.5, .5, 3, -1])
        b = ctx.choice([1, -.5, .25, 2])
        if ctx.chance(.04):
            a = ctx.choice([1e-4, 3e-3, -1e-5, 2e3, -1e-2])
        kind = ctx.choice(["", "", "neg", "mul", "rmul", "div", "add", "radd", "sub",
                           "rsub", "twice", "chain", "chain"])
        if kind == "neg":
            return E(-f, lambda p: -ref(p), e.n, e.d, "-(%s)" % t)
        if kind == "mul":
            return E(f * a, lambda p: a * ref(p), e.n, e.d, "(%s)*%s" % (t, a))
        if kind == "rmul":
            return E(a * f, lambda p: a * ref(p), e.n, e.d, "%s*(%s)" % (a, t))
        if kind == "div":
            return E(f / a, lambda p: ref(p) / a, e.n, e.d, "(%s)/%s" % (t, a))
        if kind == "add":
            return E(f + b, lambda p: ref(p) + b, e.n, e.d, "(%s)+%s" % (t, b))
        if kind == "radd":
            return E(b + f, lambda p: b + ref(p), e.n, e.d, "%s+(%s)" % (b, t))
        if kind == "sub":
            return E(f - b, lambda p: ref(p) - b, e.n, e.d, "(%s)-%s" % (t, b))
        if kind == "rsub":
            return E(b - f, lambda p: b - ref(p), e.n, e.d, "%s-(%s)" % (b, t))
        if kind == "chain":
            # any number of affine steps, by operators and by hand
            for _ in range(ctx.randint(1, 4)):
                a = ctx.choice([2, -1.5, .5, -3, -1, 1, np.float64(1.25), 4,
                                round(float(ctx.rng.uniform(-2, 2)), 2) or 1.])
                b = ctx.choice([0, 1, -.5, .25, -2, np.float64(.75)])
                if ctx.chance(.05):
                    a = ctx.choice([1e-4, 3e-3, -1e-5, 4e2, -1e-2, 1e-7])
                if ctx.chance(.03):
                    b = ctx.choice([1e-4, 2e-3, -30.])
                how = ctx.choice(["Affine", "Affine", "ops", "scale", "offset"])
                if how == "Affine":
                    g, t = Affine(f, a, b), "Affine(%s,%s,%s)" % (t, a, b)
                elif how == "ops":
                    g, t = a * f + b, "(%s*(%s)+%s)" % (a, t, b)
                elif how == "scale":
                    g, t, b = Affine(f, a), "Affine(%s,%s)" % (t, a), 0
                else:
                    g, t, a = Affine(f, b=b), "Affine(%s,b=%s)" % (t, b), 1
                f, ref = g, lambda p, ref=ref, a=float(a), b=float(b): a * ref(p) + b
            return E(f, ref, e.n, e.d, t)
        if kind == "twice":
            return E(-(a * f + b) - 1, lambda p: -(a * ref(p) + b) - 1, e.n, e.d,
                     "-(%s*(%s)+%s)-1" % (a, t, b))
        return e

    def atom(self, F, P):
        """
        leaf on the features F: returns (expression over its own features and
        parameters, param_map, feat_map)
        """
        ctx = self.ctx
        for _ in range(20):
            k = ctx.randint(0, len(P) - 1)
            shape = P[k]
            kind = ctx.choice(["x", "x", "x", "exp", "logistic", "arctan", "sig",
                               "vector", "const", "lin", "quad", "log", "sig2", "own"])
            if kind == "const":
                w = ctx.sample(len(F), ctx.randint(0, len(F)))
                c = ctx.rng.uniform(-1, 1, [F[i] for i in w])
                if ctx.chance(.15):
                    c = c * 0
                e = E(Constant(c), lambda p, c=c: c[None], len(w), 0, "C%s" % (c.shape,))
                return e, [], w
            if kind == "own":
                e = self.own(F, P, k)
                if e is None:
                    continue
                return e
            if kind in ("lin", "quad"):
                ks = [ctx.randint(0, len(P) - 1) for _ in range(ctx.randint(1, 2))]
                if kind == "lin":
                    ws = [ctx.choice([1, -1, .5, 2]) for _ in ks]
                    if len(ks) == 1 and ctx.chance(.3):
                        f = Linear(ws[0])
                    else:
                        f = Linear(ws)
                    if ctx.chance(.3):
                        ws = [ctx.rng.uniform(-1, 1, P[q]) for q in ks]
                        f = Linear(ws)
                    ref = lambda p, ws=ws: sum(
                        (w * a).sum(tuple(range(1, a.ndim))) for w, a in zip(ws, p))
                    return E(f, ref, 0, 0, "Lin"), ks, []
                u, s = float(ctx.rng.uniform(-1, 1)), \
                    float(ctx.rng.uniform(.5, 2)) * ctx.choice([1, 1, -1])
                ref = lambda p, u=u, s=s: sum(
                    (((a - u) / s) ** 2).sum(tuple(range(1, a.ndim))) for a in p)
                if len({P[q] for q in ks}) == 1 and P[ks[0]] != () and ctx.chance(.5):
                    # centres and scales entry by entry
                    w = P[ks[0]]
                    if ctx.chance(.7):
                        u = ctx.rng.uniform(-1, 1, w)
                    if ctx.chance(.7):
                        s = ctx.rng.uniform(.5, 2, w)
                    ref = lambda p, u=u, s=s: sum(
                        (((a - u) / s) ** 2).sum(tuple(range(1, a.ndim))) for a in p)
                return E(Quadratic(u, s), ref, 0, 0, "Quad%s%s" % (
                    np.shape(u), np.shape(s))), ks, []
            if kind == "vector":
                if shape == ():
                    i = ctx.randint(0, len(F) - 1)
                    v = ctx.rng.uniform(-1, 1, F[i])
                    return E(Vector(v), lambda p, v=v: p[0][:, None] * v, 1, 0,
                             "Vec"), [k], [i]
                w = self.places(F, shape)
                if w is None:
                    continue
                v = ctx.rng.uniform(-1, 1, shape)
                return E(Vector(v), lambda p, v=v: p[0] * v, len(w), 0, "Vec"), [k], w
            if shape == ():
                w = []
            else:
                w = self.places(F, shape)
                if w is None:
                    continue
            n = len(w)
            if kind == "log":
                # log of a positive expression of the parameter
                c = float(ctx.rng.uniform(.5, 2))
                return E(Log() @ (Exp() + c),
                         lambda p, c=c: np.log(np.exp(p[0]) + c), n, 0, "Log(Exp+c)"), [k], w
            f, fn, t = {
                "x": (X() if shape or ctx.chance(.4) else Scalar(), lambda z: z, "X"),
                "exp": (Exp(), np.exp, "Exp"),
                "logistic": (Logistic(), expit, "Logistic"),
                "arctan": (ArcTan(), np.arctan, "ArcTan"),
                "sig": (Sigmoid("arctan"), lambda z: np.arctan(z) / np.pi + .5, "SigA"),
                "sig2": (Sigmoid("Logistic"), expit, "SigL"),
            }[kind]
            return E(f, lambda p, fn=fn: fn(p[0]), n, 0, t + str(shape)), [k], w
        c = float(ctx.rng.uniform(-1, 1))
        return E(Constant(c), lambda p, c=c: np.array([c]), 0, 0, "c"), [], []

    def own(self, F, P, k):
        """functions written by the user, on the k-th parameter"""
        ctx, shape = self.ctx, P[k]
        kind = ctx.choice(["tilt", "table", "dense"])
        if kind == "tilt":
            c = [q for q in range(len(P)) if P[q] == ()]
            w = self.places(F, shape)
            if not c or w is None or shape == ():
                return None
            return E(Tilt(), lambda p: p[0] * np.exp(p[1]).reshape(
                (-1,) + (1,) * len(shape)), len(w), 0, "Tilt"), [k, ctx.choice(c)], w
        if len(shape) != 1:
            return None
        if kind == "table":
            q = ctx.choice([q for q in range(len(P)) if len(P[q]) == 1])
            w = self.places(F, shape + P[q])
            if w is None:
                return None
            return E(Table(), lambda p: p[0][:, :, None] * (
                p[1][:, None, :] + .5 * p[0][:, :, None]), 2, 0, "Table"), [k, q], w
        i = ctx.randint(0, len(F) - 1)
        W = ctx.rng.uniform(-1, 1, shape + (F[i],))
        return E(Dense(W), lambda p: np.dot(np.sin(p[0]), W), 1, 0, "Dense"), [k], [i]

    # ---- combinations ----------------------------------------------------
    def sub(self, F, P, depth, want_full=False):
        """nested expression over a selection of features and parameters"""
        ctx = self.ctx
        fm = list(range(len(F))) if want_full else \
            ctx.sample(len(F), ctx.randint(1, len(F)))
        if want_full and ctx.chance(.5):
            fm = ctx.sample(len(F), len(F))
        pm = [ctx.randint(0, len(P) - 1) for _ in range(ctx.randint(1, len(P)))] \
            if ctx.chance(.3) else ctx.sample(len(P), ctx.randint(1, len(P)))
        e = self.expr([F[i] for i in fm], [P[k] for k in pm], depth - 1)
        return e, pm, fm

    def term(self, F, P, depth):
        ctx = self.ctx
        if depth > 0 and ctx.chance(.45):
            e, pm, fm = self.sub(F, P, depth)
        else:
            e, pm, fm = self.atom(F, P)
            e = self.decorate(e)
        return e, pm, fm

    def expr(self, F, P, depth):
        """expression with all of the features F and no extra dims"""
        ctx = self.ctx
        kind = ctx.choice(["sum", "sum", "sum", "prod", "comp", "coll", "pointwise",
                           "mixed"])
        if kind == "mixed" and depth > 0:
            return self.mixed(F, P, depth)
        if depth <= 0:
            kind = ctx.choice(["sum", "prod"])
        if kind == "comp":
            e = self.expr(F, P, depth - 1)
            return self.wrap(e)
        if kind == "coll":
            # one or more further features that are summed away
            k = ctx.randint(1, 2)
            G = list(F) + [ctx.randint(2, 3) for _ in range(k)]
            order = ctx.perm(len(G))
            e = self.expr([G[i] for i in order], P, min(depth - 1, 1))
            where = [i for i, o in enumerate(order) if o >= len(F)]
            rest = [o for o in order if o < len(F)]
            f = Collapse(e.f, where[0] if k == 1 and ctx.chance(.3) else
                         where if ctx.chance(.5) else tuple(where), ctx.chance(.5))
            ref = lambda p: e.ref(p).sum(tuple(1 + i for i in where))
            # restore the order of the features
            s = Sum(len(F)).add(f, list(range(len(P))), rest)
            return E(s, lambda p: put(ref(p), len(rest), 0, rest, len(F), [], 0),
                     len(F), 0, "Collapse(%s,%s)" % (e.text, where))
        if kind == "pointwise":
            # function of several expressions, feature by feature
            gs = [self.full(F, P, depth - 1) for _ in range(ctx.randint(1, 3))]
            m = len(gs)
            shape = tuple(F)
            f = self.outer(len(F), m)
            refs = [g.ref for g in gs]
            fns = [g.f for g in gs]
            arg = fns[0] if m == 1 and ctx.chance(.5) else \
                (tuple(fns) if ctx.chance(.3) else fns)
            return E(f.f @ arg, lambda p: f.ref([r(p) for r in refs]), len(F), 0,
                     "%s@[%s]" % (f.text, ", ".join(g.text for g in gs)))
        terms = [self.term(F, P, depth) for _ in range(ctx.randint(1, 3))]
        if depth > 0 and ctx.chance(.15):
            terms[-1] = (self.total(F, P, depth - 1), list(range(len(P))), [])
        N = len(F)
        if kind == "prod":
            s = Product(N)
            for e, pm, fm in terms:
                s.add(e.f, self.arg(pm), self.arg(fm) if len(fm) else fm)
            parts = [(e, list(pm), list(fm)) for e, pm, fm in terms]

            def ref(p):
                out = 1.
                for e, pm, fm in parts:
                    out = out * put(e.ref([p[k] for k in pm]), e.n, 0, fm, N, [], 0)
                return out + np.zeros((1,) * (N + 1))
            return E(s, ref, N, 0, "Prod(%s)" % "; ".join(
                "%s p%s f%s" % (e.text, pm, fm) for e, pm, fm in terms))
        s = Sum(N)
        parts = []
        for e, pm, fm in terms:
            w = ctx.choice([1., 1., -1., 2., .5, 1])
            if w == 1 and ctx.chance(.5):
                s.add(e.f, self.arg(pm), self.arg(fm) if len(fm) or ctx.chance(.5)
                      else None)
            else:
                s.add(e.f, self.arg(pm), self.arg(fm), weight=w)
            parts.append((w, e, list(pm), list(fm)))

        def ref(p):
            out = 0.
            for w, e, pm, fm in parts:
                out = out + w * put(e.ref([p[k] for k in pm]), e.n, 0, fm, N, [], 0)
            return out + np.zeros((1,) * (N + 1))
        e = E(s, ref, N, 0, "Sum(%s)" % "; ".join(
            "%s*%s p%s f%s" % (w, e.text, pm, fm) for w, e, pm, fm in parts))
        return self.decorate(e) if ctx.chance(.3) else e

    def interactions(self, F, P, depth=0):
        """weighted sum whose terms couple several parameters"""
        ctx = self.ctx
        N = len(F)
        s = Sum(N)
        parts = []
        for _ in range(ctx.randint(1, 3)):
            pm = ctx.perm(len(P)) if ctx.chance(.5) else \
                [ctx.randint(0, len(P) - 1) for _ in range(ctx.randint(2, 3))]
            fm = ctx.perm(N) if ctx.chance(.7) else ctx.sample(N, ctx.randint(1, N))
            G, Q = [F[i] for i in fm], [P[k] for k in pm]
            t = Product(len(G))
            sub = []
            for k in range(len(Q)):
                # every parameter takes part
                e, q, w = self.atom(G, [Q[k]])
                q = [k for _ in q]
                if ctx.chance(.5):
                    e = self.decorate(e)
                t.add(e.f, q, w)
                sub.append((e, q, w))

            def ref(p, sub=sub, n=len(G)):
                out = 1.
                for e, q, w in sub:
                    out = out * put(e.ref([p[k] for k in q]), e.n, 0, w, n, [], 0)
                return out + np.zeros((1,) * (n + 1))
            e = E(t, ref, len(G), 0, "Prod(%s)" % "; ".join(
                "%s p%s f%s" % (a.text, q, w) for a, q, w in sub))
            if ctx.chance(.3):
                e = self.wrap(e)
            elif ctx.chance(.4):
                e = self.decorate(e)
            w = ctx.choice([-1., 2., -2., .5, -.25, 1.])
            s.add(e.f, pm, fm, weight=w)
            parts.append((w, e, pm, fm))
        ref = lambda p: sum(w * put(e.ref([p[k] for k in pm]), e.n, 0, fm, N, [], 0)
                            for w, e, pm, fm in parts) + np.zeros((1,) * (N + 1))
        e = E(s, ref, N, 0, "Sum(%s)" % "; ".join(
            "%s*%s p%s f%s" % (w, a.text, pm, fm) for w, a, pm, fm in parts))
        return self.decorate(e) if ctx.chance(.3) else e

    def outer(self, n, m):
        """function of m arrays with n axes each, applied cell by cell"""
        ctx = self.ctx
        if m == 1 and ctx.chance(.5):
            f, fn, t = ctx.choice([(Exp(), np.exp, "Exp"), (Logistic(), expit, "Logistic"),
                                   (ArcTan(), np.arctan, "ArcTan"),
                                   (X() * 2 + 1, lambda z: 2 * z + 1, "2X+1")])
            return E(f, lambda p: fn(p[0]), n, 0, t)
        prod = ctx.chance(.5)
        s = (Product if prod else Sum)(n)
        fs = []
        for k in range(m):
            f, fn = ctx.choice([(X(), lambda z: z), (Exp(), np.exp), (Logistic(), expit),
                                (2 - X(), lambda z: 2 - z)])
            s.add(f, k, list(range(n)))
            fs.append(fn)

        def ref(p):
            v = [fn(a) for fn, a in zip(fs, p)]
            out = v[0]
            for a in v[1:]:
                out = out * a if prod else out + a
            return out
        return E(s, ref, n, 0, "Prod" if prod else "Sum")

    def mixed(self, F, P, depth):
        """function of several expressions, each with features of its own"""
        ctx, N = self.ctx, len(F)
        m = ctx.randint(1, 3)
        ws = [ctx.sample(N, ctx.randint(1, N)) for _ in range(m)]
        gs = [self.full([F[i] for i in w], P, depth - 1) for w in ws]
        prod = ctx.chance(.5)
        s = (Product if prod else Sum)(N)
        parts = []
        for k in ctx.perm(m) + ([ctx.randint(0, m - 1)] if ctx.chance(.5) else []):
            w, c = ws[k], 1.
            kind = ctx.choice(["cells", "cells", "table", "dense", "lin", "pair"])
            q = ctx.choice([q for q in range(m) if len(ws[q]) == 1] or [None])
            if kind == "table" and len(w) == 1 and q is not None and ws[q] != w:
                e = E(Table(), lambda p: p[0][:, :, None] * (
                    p[1][:, None, :] + .5 * p[0][:, :, None]), 2, 0, "Table")
                pm, w = [k, q], w + ws[q]
            elif kind == "dense" and len(w) == 1:
                i = ctx.randint(0, N - 1)
                W = ctx.rng.uniform(-1, 1, (F[w[0]], F[i]))
                e = E(Dense(W), lambda p, W=W: np.dot(np.sin(p[0]), W), 1, 0, "Dense")
                pm, w = [k], [i]
            elif kind == "lin":
                v = ctx.rng.uniform(-1, 1, [F[i] for i in w])
                ax = tuple(range(1, len(w) + 1))
                e = E(Linear([v]), lambda p, v=v, ax=ax: (v * p[0]).sum(ax), 0, 0, "Lin")
                pm, w = [k], []
            elif kind == "pair":
                # product of two of the arguments
                q = ctx.randint(0, m - 1)
                t = sorted(set(w) | set(ws[q]))
                u = [t.index(i) for i in w]
                v = [t.index(i) for i in ws[q]]
                a, b = ctx.choice([(1., 0.), (-1., 2.)])
                f = Product(len(t)).add(X(), 0, u).add(a * X() + b, 1, v)
                e = E(f, lambda p, u=u, v=v, n=len(t), a=a, b=b:
                      put(p[0], len(u), 0, u, n, [], 0) *
                      (a * put(p[1], len(v), 0, v, n, [], 0) + b), len(t), 0,
                      "XX%s%s" % (u, v))
                pm, w = [k, q], t
            else:
                f, fn, t = ctx.choice([
                    (X(), lambda z: z, "X"), (Exp() @ ArcTan(), lambda z: np.exp(
                        np.arctan(z)), "ExpA"), (Logistic(), expit, "Logistic"),
                    (2 - X(), lambda z: 2 - z, "2-X")])
                e = E(f, lambda p, fn=fn: fn(p[0]), len(w), 0, t)
                pm = [k]
            if prod:
                s.add(e.f, pm, w)
            else:
                c = ctx.choice([1., -1., .5, 2.])
                s.add(e.f, pm, w, weight=c)
            parts.append((c, e, pm, w))

        def ref(p):
            v = [g.ref(p) for g in gs]
            out = 1. if prod else 0.
            for c, e, pm, w in parts:
                z = c * put(e.ref([v[k] for k in pm]), e.n, 0, w, N, [], 0)
                out = out * z if prod else out + z
            return out + np.zeros((1,) * (N + 1))
        return E(s @ [g.f for g in gs], ref, N, 0, "%s[%s]@[%s]" % (
            "Prod" if prod else "Sum",
            "; ".join("%s*%s p%s f%s" % (c, e.text, pm, w) for c, e, pm, w in parts),
            "; ".join("%s f%s" % (g.text, w) for g, w in zip(gs, ws))))

    def above(self, F, P, depth):
        return self.over(getattr(self, self.ctx.choice(
            ["counts", "joint", "mixture", "nested", "markov"]))(F, P, 0))

    def over(self, m):
        """cell by cell function of an expression with extra dims"""
        ctx = self.ctx
        f, fn, t = ctx.choice([
            (X(), lambda z: z, "X"), (2 - .5 * X(), lambda z: 2 - .5 * z, "2-X/2"),
            (Logistic(), expit, "Logistic"), (ArcTan(), np.arctan, "ArcTan"),
            (Sigmoid("arctan"), lambda z: np.arctan(z) / np.pi + .5, "SigA"),
            (Exp() @ ArcTan(), lambda z: np.exp(np.arctan(z)), "Exp@ArcTan"),
            (Log() @ (1.5 + Logistic()), lambda z: np.log(1.5 + expit(z)), "Log@Logistic")])
        return E(f @ m.f, lambda p: fn(m.ref(p)), m.n, m.d, "%s@(%s)" % (t, m.text))

    def total(self, F, P, depth):
        """a number: weighted sum (of squares) of all cells of some expressions"""
        ctx = self.ctx
        m = ctx.randint(1, 3)
        gs = [self.full(F, P, depth) for _ in range(m)]
        refs = [g.ref for g in gs]
        ax = tuple(range(1, len(F) + 1))
        size = float(np.prod(F))
        if ctx.chance(.6):
            ws = [ctx.choice([1., -2., .5]) / size for _ in gs]
            if ctx.chance(.3):
                ws = [ctx.rng.uniform(-1, 1, F) / size for _ in gs]
            f = Linear(ws)
            ref = lambda p: sum((w * r(p)).sum(ax) for w, r in zip(ws, refs))
        else:
            u, t = ctx.choice([0., .5]), ctx.choice([2., -3.]) * size ** .5
            f = Quadratic(u, t)
            ref = lambda p: sum((((r(p) - u) / t) ** 2).sum(ax) for r in refs)
        return E(f @ [g.f for g in gs], ref, 0, 0, "%s@[%s]" % (
            type(f).__name__, ", ".join(g.text for g in gs)))

    def arg(self, where):
        """single positions can be given as an integer"""
        if len(where) == 1 and self.ctx.chance(.5):
            return where[0]
        return list(where)

    def wrap(self, e):
        ctx = self.ctx
        kind = ctx.choice(["exp", "logistic", "arctan", "log", "sig"])
        if kind == "exp":
            # bounded argument
            return unary(e, Exp() @ (.5 * ArcTan()) @ e.f,
                         lambda z: np.exp(.5 * np.arctan(z)), "Exp@.5ArcTan@(%s)" % e.text)
        if kind == "log":
            return unary(e, Log() @ (1.5 + Logistic()) @ e.f,
                         lambda z: np.log(1.5 + expit(z)), "Log@(1.5+Logistic)@(%s)" % e.text)
        if kind == "sig":
            return unary(e, Sigmoid("arctan") @ e.f,
                         lambda z: np.arctan(z) / np.pi + .5, "SigA@(%s)" % e.text)
        f, fn = {"logistic": (Logistic(), expit), "arctan": (ArcTan(), np.arctan)}[kind]
        return unary(e, f @ e.f, fn, "%s@(%s)" % (kind, e.text))

    def full(self, F, P, depth):
        """expression whose value has all of the features in full length"""
        ctx = self.ctx
        e = self.expr(F, P, depth)
        N = len(F)
        c = ctx.rng.uniform(-.5, .5, F)
        s = Sum(N).add(e.f, list(range(len(P))), list(range(N)))
        s.add(Constant(c), [], list(range(N)))
        return E(s, lambda p: e.ref(p) + c, N, 0, "(%s)+C" % e.text)

    def bounded(self, F, P, depth, lo, hi, full=False):
        """expression with values between lo and hi"""
        e = self.full(F, P, depth) if full else self.expr(F, P, depth)
        f = (lo + (hi - lo) * Logistic()) @ e.f
        return E(f, lambda p: lo + (hi - lo) * expit(e.ref(p)), e.n, 0,
                 "%s+%s*Logistic@(%s)" % (lo, hi - lo, e.text))

    # ---- probability functions (extra dims) ------------------------------
    def counts(self, F, P, depth, size=None):
        """one extra axis of counts"""
        ctx = self.ctx
        e = self.bounded(F, P, depth, .1, ctx.choice([1., 2., 4.]))
        size = size or ctx.randint(2, 5)
        kind = ctx.choice(["poisson", "lognb", "nb"])
        r = float(ctx.choice([1., .5, 2.5]))
        if kind == "poisson":
            return E(Poisson(size) @ e.f, lambda p: ref_poisson(e.ref(p), size), e.n, 1,
                     "Poisson(%d)@(%s)" % (size, e.text))
        if kind == "lognb":
            return E(LogNegativeBinomial(size, r) @ e.f,
                     lambda p: ref_lognb(e.ref(p), size, r), e.n, 1,
                     "LogNB(%d,%s)@(%s)" % (size, r, e.text))
        return E(NegativeBinomial(size, r) @ e.f,
                 lambda p: np.exp(ref_lognb(e.ref(p), size, r)), e.n, 1,
                 "NB(%d,%s)@(%s)" % (size, r, e.text))

    def markov(self, F, P, depth):
        ctx = self.ctx
        a = self.bounded(F, P, depth, .1, 1.5, full=True)
        b = self.bounded(F, P, depth, .1, 1.5, full=True)
        size, steps = ctx.randint(2, 4), ctx.randint(4, 8)
        kind = ctx.choice(["matrix", "vector", "collapse"])
        if kind == "vector":
            skew = None if ctx.chance(.5) else ctx.rng.uniform(.5, 1.2, 2 * size - 1)
            return E(MarkovVector(size, steps, skew) @ [a.f, b.f],
                     lambda p: ref_markov_vector(a.ref(p), b.ref(p), size, steps, skew),
                     len(F), 1, "MarkovVector(%d,%d)@[%s, %s]" % (size, steps, a.text, b.text))
        skew = None if ctx.chance(.5) else ctx.rng.uniform(.5, 1.2, (size, size))
        m = E(MarkovMatrix(size, steps, skew) @ [a.f, b.f],
              lambda p: ref_markov(a.ref(p), b.ref(p), size, steps, skew),
              len(F), 2, "MarkovMatrix(%d,%d)@[%s, %s]" % (size, steps, a.text, b.text))
        if kind == "matrix":
            return m
        return self.outcome(m)

    def outcome(self, m):
        ctx = self.ctx
        cond = None if ctx.chance(.5) else [
            (ctx.randint(-2, 2), ctx.randint(-2, 2), ctx.randint(-2, 2),
             ctx.choice([-1, 0, 1])) for _ in range(ctx.randint(1, 3))]
        return E(CollapseMatrix(cond) @ m.f,
                 lambda p: ref_collapse_matrix(m.ref(p), cond or WDL), m.n, 1,
                 "CollapseMatrix(%s)@(%s)" % (cond, m.text))

    def joint(self, F, P, depth):
        """product of two counts on different extra dims"""
        ctx = self.ctx
        a, b = self.counts(F, P, depth), self.counts(F, P, depth)
        i, j = ctx.choice([(0, 1), (1, 0)])
        N, al = len(F), list(range(len(P)))
        fl = ctx.perm(N) if len(set(F)) == 1 else list(range(N))
        s = Product(N, 2).add(a.f, al, list(range(N)), i).add(b.f, al, fl, [j])
        return E(s, lambda p: put(a.ref(p), N, 1, list(range(N)), N, [i], 2) *
                 put(b.ref(p), N, 1, fl, N, [j], 2), N, 2,
                 "Product2(%s on %d; %s on %d %s)" % (a.text, i, b.text, j, fl))

    def mixture(self, F, P, depth):
        """sum of counts and terms without the extra axis"""
        ctx = self.ctx
        size = ctx.randint(2, 4)
        N, al = len(F), list(range(len(P)))
        s = Sum(N, 1)
        parts = []
        for _ in range(ctx.randint(1, 2)):
            a = self.counts(F, P, depth, size)
            w = ctx.choice([1., .5, 2.])
            s.add(a.f, al, list(range(N)), 0 if ctx.chance(.5) else [0], w)
            parts.append((w, a, al, list(range(N)), [0]))
        if ctx.chance(.7):
            e, pm, fm = self.term(F, P, depth)
            s.add(e.f, pm, fm, None, .5)
            parts.append((.5, e, pm, fm, []))

        def ref(p):
            return sum(w * put(e.ref([p[k] for k in pm]), e.n, e.d, fm, N, dm, 1)
                       for w, e, pm, fm, dm in parts)
        return E(s, ref, N, 1, "Sum1(%s)" % "; ".join(
            "%s*%s p%s f%s d%s" % (w, e.text, pm, fm, dm) for w, e, pm, fm, dm in parts))

    def nested(self, F, P, depth, dims=None):
        """sums and products of each other, with features and dims in any order"""
        ctx = self.ctx
        N, al = len(F), list(range(len(P)))
        sz = dims or [ctx.randint(2, 3) for _ in range(ctx.randint(1, 3))]
        D = len(sz)
        prod = ctx.chance(.6)
        s = (Product if prod else Sum)(N, D)
        parts = []
        todo = set(range(D))
        for _ in range(6):
            if not todo and len(parts) > 1:
                break
            k = ctx.randint(0, D) if not todo else ctx.randint(1, D)
            dm = ctx.sample(D, k)
            todo -= set(dm)
            fm = ctx.perm(N) if ctx.chance(.5) else list(range(N))
            G = [F[i] for i in fm]
            pm = ctx.sample(len(P), ctx.randint(1, len(P)))
            Q = [P[i] for i in pm]
            if k == 0:
                e = self.bounded(G, Q, 0, .5, 1.5)
            elif k == 1 and (depth <= 0 or ctx.chance(.5)):
                e = self.counts(G, Q, 0, sz[dm[0]])
            elif depth > 0:
                e = self.nested(G, Q, depth - 1, [sz[i] for i in dm])
            else:
                # counts on each of the dims
                for q in dm[1:]:
                    e = self.counts(G, Q, 0, sz[q])
                    parts.append((self.addto(s, prod, e, pm, fm, [q]), e, pm, fm, [q]))
                dm = dm[:1]
                e = self.counts(G, Q, 0, sz[dm[0]])
            parts.append((self.addto(s, prod, e, pm, fm, dm), e, pm, fm, dm))
        for q in sorted(todo):
            e = self.counts(F, P, 0, sz[q])
            fm = list(range(N))
            parts.append((self.addto(s, prod, e, al, fm, [q]), e, al, fm, [q]))

        def ref(p):
            out = None
            for w, e, pm, fm, dm in parts:
                v = w * put(e.ref([p[k] for k in pm]), e.n, e.d, fm, N, dm, D)
                out = v if out is None else out * v if prod else out + v
            return out
        return E(s, ref, N, D, "%s%d(%s)" % ("Prod" if prod else "Sum", D, "; ".join(
            "%s*%s p%s f%s d%s" % (w, e.text, pm, fm, dm) for w, e, pm, fm, dm in parts)))

    def addto(self, s, prod, e, pm, fm, dm):
        """adds e (that can be replaced by an affine function of it) to s"""
        ctx = self.ctx
        if ctx.chance(.25):
            e.__dict__.update(self.decorate(e).__dict__)
        if len(dm) == 1 and ctx.chance(.5):
            dm = dm[0]
        if prod:
            s.add(e.f, pm, fm, dm) if dm != [] else s.add(e.f, pm, fm)
            return 1.
        w = ctx.choice([1., -1., .5, 2., -.25])
        s.add(e.f, pm, fm, dm if dm != [] else None, w)
        return w

    def tennis(self, P, F, depth):
        """on (at most) one feature"""
        ctx = self.ctx
        e = self.bounded(F, P, depth, .1, .9, full=True)
        kind = ctx.choice(["game", "tiebreak", "set", "cgame"])
        if kind == "game":
            return E(Game() @ e.f, lambda p: ref_game(e.ref(p)), 1, 1, "Game@" + e.text)
        if kind == "tiebreak":
            return E(TieBreak() @ e.f, lambda p: ref_tiebreak(e.ref(p)), 1, 1,
                     "TieBreak@" + e.text)
        if kind == "cgame":
            return E(Collapse(Game() @ e.f, False),
                     lambda p: ref_game(e.ref(p)).sum(-1), 1, 0, "CGame@" + e.text)
        return E(Set() @ [Collapse(Game(), False), Collapse(TieBreak(), False)] @ e.f,
                 lambda p: ref_set(ref_game(e.ref(p)).sum(-1),
                                   ref_tiebreak(e.ref(p)).sum(-1)), 1, 1, "Set@" + e.text)

    def collapsed(self, F, P, depth):
        """any selection of features and / or all extra dims summed away"""
        ctx = self.ctx
        m = getattr(self, ctx.choice(["nested", "joint", "mixture", "mixture", "counts",
                                      "full", "mixed"]))(F, P, 0)
        where = ctx.sample(m.n, ctx.randint(0, m.n))
        sd = ctx.chance(.5)
        if not where or ctx.chance(.1):
            where, sv = [], False
        elif len(where) == m.n and ctx.chance(.5):
            sv = True
        elif len(where) == 1 and ctx.chance(.3):
            sv = where[0]
        else:
            sv = where if ctx.chance(.5) else tuple(where)
        ax = tuple(1 + i for i in where) + \
            (tuple(range(1 + m.n, 1 + m.n + m.d)) if sd else ())
        return E(Collapse(m.f, sv, sd), lambda p: m.ref(p).sum(ax), m.n - len(where),
                 0 if sd else m.d, "Collapse(%s,%s,%s)" % (m.text, sv, sd))

    def any(self, F, P, depth):
        ctx = self.ctx
        kind = ctx.choice(["expr"] * 6 + ["counts", "counts", "markov", "joint",
                                         "mixture", "outcome", "tennis", "cjoint",
                                         "nested", "nested", "collapsed", "over", "over"])
        if kind == "over":
            return self.above(F, P, 0)
        if kind == "expr":
            return self.expr(F, P, depth)
        depth = min(depth, 1)
        if kind == "tennis":
            F1 = [F[0]]
            return self.tennis(P, F1, depth)
        if kind == "outcome":
            return self.outcome(self.joint(F, P, 0))
        if kind == "cjoint":
            m = self.joint(F, P, 0)
            sv = ctx.choice([False, True])
            sd = True if not sv else ctx.chance(.5)
            ax = (tuple(range(1, 1 + m.n)) if sv else ()) + \
                (tuple(range(1 + m.n, 3 + m.n)) if sd else ())
            return E(Collapse(m.f, sv, sd), lambda p: m.ref(p).sum(ax),
                     0 if sv else m.n, 0 if sd else 2, "Collapse(%s,%s,%s)" % (m.text, sv, sd))
        return getattr(self, kind)(F, P, depth)


# ---------------------------------------------------------------------------
# exact derivatives of the reference
# ---------------------------------------------------------------------------
def ref_value(e, params):
    return e.ref([np.asarray(p, dtype=float)[None] for p in params])[0]


def _batch(params, deltas, dtype):
    """parameters (with a batch axis) displaced by the rows of deltas"""
    out, k = [], 0
    B = deltas.shape[0]
    for p in params:
        p = np.asarray(p, dtype=float)
        d = deltas[:, k:k + p.size].reshape((B,) + p.shape)
        out.append(p[None].astype(dtype) + d)
        k += p.size
    return out


def ref_eval(e, params, deltas):
    out = e.ref(_batch(params, deltas, deltas.dtype))
    B = deltas.shape[0]
    if out.shape[0] != B:
        out = np.broadcast_to(out, (B,) + out.shape[1:])
    return out


def ref_grad(e, params, shifts=None):
    """
    derivatives with respect to all entries (flat), exact up to rounding
    returns (entries, value axes) or (shifts, entries, value axes)
    """
    n = int(sum(np.size(p) for p in params))
    h = 1e-30
    if shifts is None:
        z = 1j * h * np.eye(n)
        return decided(ref_eval(e, params, z).imag / h)
    S = shifts.shape[0]
    z = (shifts[:, None, :] + 1j * h * np.eye(n)[None]).reshape(S * n, n)
    out = decided(ref_eval(e, params, z).imag / h)
    return out.reshape((S, n) + out.shape[1:])


def ref_hess(e, params, step=2e-3):
    """(entries, entries, value axes), fourth order differences of the exact gradient"""
    n = int(sum(np.size(p) for p in params))
    sh = np.concatenate([c * step * np.eye(n) for c in (2, 1, -1, -2)])
    g = ref_grad(e, params, sh)
    g = g.reshape((4, n) + g.shape[1:])
    return (-g[0] + 8 * g[1] - 8 * g[2] + g[3]) / (12 * step)


def slices(params):
    out, k = [], 0
    for p in params:
        out.append(slice(k, k + int(np.size(p))))
        k += int(np.size(p))
    return out
