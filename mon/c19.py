"""C19: fixed entries, order, shape and mask of parameters and reports."""
import numpy as np
import pandas as pd
import maxlike
from .core import Skip, Violation
from .models import *
from .c18 import solve

RULE = ("random parameter lists (numbers, lists, nested lists, tuples, integer, float, Fortran and "
        "strided arrays, pandas objects; no mask, number, list, integer and boolean masks) are "
        "added and read back bit by bit; random identifiable models of all classes with masks are "
        "fitted by both methods: fixed entries are compared bitwise with their initial values, "
        "free entries must be optimised, standard errors, error and information blocks must have "
        "the layout of the parameters and the values of independently derived blocks. Distinct by "
        "shapes, masks and containers.")
ASSUMPTIONS = ["fits that raise are not judged here, see C18 and C20"]


def contain(ctx, v):
    """the same values in another container"""
    v = np.asarray(v, dtype=float)
    kinds = ["array", "array", "list", "tuple", "fortran", "strided", "param"]
    if v.ndim == 0:
        kinds = ["array", "float", "np.float64", "param"]
    if v.ndim == 1:
        kinds += ["series", "series", "range" if v.tobytes() == np.arange(v.size, dtype=float).tobytes() else "list"]
    if v.ndim == 2:
        kinds += ["frame", "frame"]
    if np.abs(v).max(initial=0) < 1e4 and np.array_equal(v, np.round(v)) and not np.any(np.signbit(v) & (v == 0)):
        kinds += ["int", "int", "intlist"]
    kind = ctx.choice(kinds)
    if kind == "float":
        return kind, float(v)
    if kind == "np.float64":
        return kind, np.float64(v)
    if kind == "list":
        return kind, v.tolist()
    if kind == "intlist":
        return kind, v.astype(int).tolist()
    if kind == "tuple":
        return kind, tuple(v.tolist()) if v.ndim == 1 else tuple(map(tuple, v.tolist())) \
            if v.ndim == 2 else v.tolist()
    if kind == "fortran":
        return kind, np.array(v, order="F")
    if kind == "strided":
        big = np.full(v.shape[:-1] + (2 * v.shape[-1],), 9.)
        big[..., ::2] = v
        return kind, big[..., ::2]
    if kind == "series":
        n = v.size
        return kind, pd.Series(v, index=[n - k for k in range(n)])
    if kind == "frame":
        return kind, pd.DataFrame(v, index=[v.shape[0] - k for k in range(v.shape[0])])
    if kind == "int":
        return kind, v.astype(ctx.choice([np.int64, np.int32, np.int16]))
    if kind == "range":
        return kind, range(v.size)
    if kind == "param":
        return kind, maxlike.maxlike_base.Param(v)
    return kind, v.copy()


def contain_mask(ctx, m):
    m = np.asarray(m, dtype=bool)
    kinds = ["bool", "bool", "int", "list", "fortran"]
    if m.all():
        kinds += ["True", "True"]
    if not m.any():
        kinds += ["False", "None", "None"]
    if m.ndim == 1:
        kinds += ["series"]
    kind = ctx.choice(kinds)
    if kind == "True":
        return kind, True
    if kind == "False":
        return kind, False
    if kind == "None":
        return kind, None
    if kind == "int":
        return kind, m.astype(int)
    if kind == "list":
        return kind, m.tolist()
    if kind == "fortran":
        return kind, np.array(m, order="F")
    if kind == "series":
        return kind, pd.Series(m, index=range(m.size)[::-1])
    return kind, m.copy()


def add(ctx, m, values, masks):
    m.reset_params()
    kinds = []
    for v, k in zip(values, masks):
        a, c = contain(ctx, v)
        b, d = contain_mask(ctx, k)
        kinds.append((a, b))
        if d is None and ctx.chance(.7):
            ctx.call("add_param", m.add_param, c)
        elif ctx.chance(.5):
            ctx.call("add_param", m.add_param, c, d)
        else:
            ctx.call("add_param", m.add_param, values=c, fixed=d)
    ctx.note("containers", kinds)
    ctx.sig(kinds)


def check_params(ctx, m, values, masks, kind, fixed_only=False):
    g = ctx.call("get_params", m.get_params)
    ctx.check(len(g) == len(values), kind + ": number of parameters")
    for k, (p, v, w) in enumerate(zip(g, values, masks)):
        v, w = np.asarray(v, dtype=float), np.asarray(w, dtype=bool)
        ctx.check(np.shape(p) == v.shape, kind + ": shape",
                  lambda: "%d: %s instead of %s" % (k, np.shape(p), v.shape))
        ctx.check(np.array_equal(np.ma.getmaskarray(p), w), kind + ": mask",
                  lambda: "%d: %s instead of %s" % (k, np.ma.getmaskarray(p), w))
        d = np.asarray(np.ma.getdata(p), dtype=float)
        sel = w if fixed_only else np.ones_like(w)
        ctx.check(d[sel].tobytes() == v[sel].tobytes(),
                  kind + (": fixed entries" if fixed_only else ": values"),
                  lambda: "%d: %s instead of %s" % (k, d[sel], v[sel]))
        ctx.event("fixed entries", int(w.sum()))
        ctx.event("free entries", int((~w).sum()))


def layout(ctx):
    """what is added is what is stored"""
    n = ctx.randint(1, 5)
    values, masks = [], []
    for _ in range(n):
        s = [ctx.randint(1, 4) for _ in range(ctx.choice([0, 0, 1, 1, 1, 2, 2, 3]))]
        v = ctx.rng.normal(size=s)
        if ctx.chance(.4):
            v = np.round(v * 3)
        if ctx.chance(.1):
            v = v * ctx.choice([1e-300, 1e200, -0.])
        values.append(v)
        masks.append(ctx.rng.random(s) < ctx.choice([0, .3, .5, .8, 1]))
    ctx.note([np.shape(v) for v in values], [m.astype(int).tolist() for m in masks])
    ctx.sig([np.shape(v) for v in values], [m.astype(int).tolist() for m in masks])
    m = ctx.choice([maxlike.Poisson, maxlike.Logistic, maxlike.Finite,
                    lambda: maxlike.NegativeBinomial(1), maxlike.NormalizedFinite])()
    if ctx.chance(.5):
        # others first, that are removed
        for v in values[::-1]:
            m.add_param(v + 1)
    add(ctx, m, values, masks)
    check_params(ctx, m, values, masks, "added")
    # shapes that don't fit are refused
    v = ctx.rng.normal(size=[ctx.randint(2, 4)])
    try:
        m.add_param(v, np.zeros(v.size + 1, bool))
    except Exception:
        ctx.event("mask of another shape refused")
        check_params(ctx, m, values, masks, "after a refused mask")
    m.reset_params()
    ctx.check(len(m.get_params()) == 0, "reset")


def blocks(mod, mat, free, n):
    """scatters a matrix over the free entries to blocks of the parameters"""
    full = np.zeros((n, n))
    full[np.ix_(free, free)] = mat
    ks = np.cumsum([0] + [int(np.size(p)) for p in mod.params])
    return [[full[a:b, c:d].reshape(np.shape(p) + np.shape(q))
             for c, d, q in zip(ks, ks[1:], mod.params)]
            for a, b, p in zip(ks, ks[1:], mod.params)]


def check_reports(ctx, mod, m, masks, exact):
    free = np.flatnonzero(~mod.mask())
    x = mod.flat([np.ma.getdata(p) for p in m.get_params()])
    n = len(x)
    H = mod.hess(x)[np.ix_(free, free)]
    J = mod.jac(x)[:, free]
    c = len(J)
    B = np.vstack([np.hstack([H, J.T]), np.hstack([J, np.zeros((c, c))])]) if c else H
    if exact:
        s = np.linalg.svd(B, compute_uv=False)
        if s.min() < 1e-3 * s.max():
            exact = False
            ctx.event("information close to singular")
    Z = -np.linalg.inv(B)[:len(free), :len(free)] if exact else None
    em = ctx.call("error_matrix", m.error_matrix)
    fm = ctx.call("fisher_matrix", m.fisher_matrix)
    for name, got, want in (("error_matrix", em, Z), ("fisher_matrix", fm, H)):
        want = blocks(mod, want, free, n) if exact else None
        ctx.check(len(got) == len(mod.params) and all(len(r) == len(mod.params) for r in got),
                  name + ": blocks")
        for i, p in enumerate(mod.params):
            for j, q in enumerate(mod.params):
                b = got[i][j]
                ctx.check(np.shape(b) == np.shape(p) + np.shape(q), name + ": block shape",
                          lambda: "%d,%d: %s" % (i, j, np.shape(b)))
                out = np.logical_or.outer(masks[i], masks[j]).reshape(np.shape(b))
                b = np.ma.filled(np.ma.array(b, dtype=float), np.nan)
                # fixed entries carry no error / information
                v = b[out]
                ctx.check(np.all(np.isnan(v) | (v == 0)), name + ": fixed entries",
                          lambda: "%s" % v)
                if exact:
                    scale = np.abs(want[i][j]).max(initial=0) + np.abs(
                        np.array(Z if name == "error_matrix" else H)).max() * 1e-2
                    ctx.close(b[~out], want[i][j][~out], name + ": entries",
                              rtol=2e-3, atol=2e-3 * scale)
    if not exact:
        return
    se = ctx.call("std_error", m.std_error)
    ctx.check(len(se) == len(mod.params), "std_error: number")
    k = 0
    d = np.sqrt(np.abs(np.diag(Z)))
    for i, (p, e) in enumerate(zip(mod.params, se)):
        ctx.check(np.shape(e) == np.shape(p), "std_error: shape")
        ctx.check(np.array_equal(np.ma.getmaskarray(e), masks[i]), "std_error: mask")
        v = np.asarray(np.ma.getdata(e), dtype=float)[~masks[i]]
        tiny = d[k:k + v.size] < 1e-5      # determined by a constraint
        ctx.close(np.where(tiny, 0, v), np.where(tiny, 0, d[k:k + v.size]),
                  "std_error: entries", rtol=2e-3, atol=1e-6)
        w = np.asarray(np.ma.getdata(e), dtype=float)[masks[i]]
        ctx.check(np.all(np.isnan(w) | (w == 0)), "std_error: fixed entries")
        k += v.size


def fits(ctx):
    mod = well_posed(ctx, cons=ctx.chance(.6), regs=True)
    if not any(k is not None and np.any(k) for k in mod.masks):
        # fix something
        k = ctx.randint(0, len(mod.params) - 1)
        if any(k in c[0] for c in mod.cons):
            raise Skip()
        w = ctx.rng.random(np.shape(mod.params[k])) < .6
        w = np.asarray(w)
        if len(mod.params) == 1 and w.all():
            raise Skip()
        mod.masks[k] = w
    masks = [np.zeros(np.shape(p), bool) if k is None else
             np.array(np.broadcast_to(k, np.shape(p))) for p, k in zip(mod.params, mod.masks)]
    if not any((~w).any() for w in masks):
        raise Skip()
    # awkward fixed values, and integers
    for p, w in zip(mod.params, masks):
        if ctx.chance(.3):
            p[w] = np.round(p[w])
    m = mod.build()
    add(ctx, m, mod.params, masks)
    ctx.note("values", [np.round(p, 3).tolist() for p in mod.params],
             [w.astype(int).tolist() for w in masks])
    check_params(ctx, m, mod.params, masks, "added")
    if not mod.valid(mod.flat()):
        raise Skip()
    method = ctx.choice(["newton", "newton", "broyden"])
    try:
        m.fit(method=method, max_steps=60 if method == "newton" else 200, **mod.data)
    except Exception as e:
        ctx.event("failed fit: %s" % type(e).__name__)
        check_params(ctx, m, mod.params, masks, "after a failed fit")
        x0 = mod.flat()
        if mod.concave and method == "newton" and (
                not mod.cons or np.abs(mod.con(x0[None])).max() < 1e-10):
            try:
                solve(ctx, mod)
            except Skip:
                return
            raise Violation("well-posed problem not solved", "%s: %s" % (
                type(e).__name__, str(e)[:200]))
        return
    ctx.event("successful fit: " + method)
    check_params(ctx, m, mod.params, masks, "fit", fixed_only=True)
    x = mod.flat([np.ma.getdata(p) for p in m.get_params()])
    # the free entries are optimised, all of them
    free, Z, g, H, _ = reduced(mod, x)
    n = mod.data["N"].sum()
    if len(g):
        w, V = np.linalg.eigh(H)
        r = V.T @ g
        gain = float((r ** 2 / (2 * np.maximum(np.abs(w), 1e-3))).sum() / n)
        ctx.check(gain <= 1e-6 * (abs(mod.mean(x)) + 1e-3), "free entries are optimised",
                  lambda: "%g can be gained" % gain)
        exact = method == "newton" and w.max() < -1e-2
        check_reports(ctx, mod, m, masks, exact)
    # a further fit, from the maximum
    if ctx.chance(.3):
        try:
            m.fit(method=method, **mod.data)
        except Exception:
            ctx.event("failed second fit")
        check_params(ctx, m, mod.params, masks, "second fit", fixed_only=True)


WORKLOADS = [("layout", layout, 2000, 25000), ("fits", fits, 450, 8000)]
