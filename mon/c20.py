"""C20: failing fits raise and leave the model as it was; verbosity is inert."""
import contextlib
import io
import numpy as np
import maxlike
from maxlike.maxlike_base import ConvergenceError
from .core import Skip, Violation
from .digest import canon
from .models import *

RULE = ("random models of all classes are fitted with every step limit, from far starts, with "
        "faults injected in the k-th evaluation of the model (an exception, not-a-number, reversed "
        "derivatives), unknown methods, singular information and data that don't fit, with and "
        "without a successful fit before; stored parameters and error estimates are compared "
        "bitwise before and after, the outcome of later fits with the one of a fresh model, and "
        "the outcomes for all verbosities with each other. Distinct by model, method and fault.")
ASSUMPTIONS = ["data attributes of the model are those of the last call, also if it failed"]


class Fault(Exception):
    pass


class Proxy:
    """the model, with a fault at the k-th evaluation"""

    def __init__(self, f, at=None, kind="raise", period=None):
        self.f, self.at, self.kind, self.n, self.fired = f, at, kind, 0, 0
        self.period = period

    def hit(self):
        self.n += 1
        h = self.at is not None and (self.n == self.at or self.at == 0 or
                                     (self.period and self.n >= self.at))
        if h:
            self.fired += 1
            if self.kind == "raise":
                raise Fault("evaluation %d" % self.n)
        return h

    def __call__(self, params):
        h = self.hit()
        y = self.f(params)
        return y * np.nan if h and self.kind == "nan" else y

    def grad(self, params, i=None):
        h = self.hit()
        g = self.f.grad(params) if i is None else self.f.grad(params, i)
        if h and self.kind == "nan":
            g = [d * np.nan for d in g]
        if h and self.kind == "reverse":
            g = [-d for d in g]
        return g

    def hess(self, params, *a):
        self.hit()
        return self.f.hess(params, *a)

    def eval(self, params):
        h = self.hit()
        y, g, H = self.f.eval(params)
        if h and self.kind == "nan":
            y = y * np.nan
        if h and self.kind == "reverse":
            g = [-d for d in g]
        return y, g, H


REPORTS = ("get_params", "std_error", "error_matrix", "fisher_matrix")


def snapshot(m):
    """stored parameters and error estimates"""
    out = [tuple(canon(p) for p in m.params)]
    for name in REPORTS:
        try:
            out.append(canon(getattr(m, name)()))
        except Exception as e:
            out.append(type(e).__name__)
    return out


def run(m, mod, data=None, **kw):
    """('ok' | exception, text printed)"""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        try:
            r = m.fit(**kw, **(mod.data if data is None else data))
        except Exception as e:
            return e, buf.getvalue()
    return r, buf.getvalue()


def same_state(ctx, m, before, what):
    after = snapshot(m)
    for name, a, b in zip(("parameters",) + REPORTS, before, after):
        ctx.check(a == b, "state unchanged by a failed fit: " + name,
                  lambda: "%s: %s -> %s" % (what, str(a)[:400], str(b)[:400]))


def problem(ctx, **kw):
    mod = well_posed(ctx, steps=(5, 7), **kw)
    if ctx.chance(.6):
        # further from the maximum
        flat = mod.flat() + np.where(mod.mask(), 0, ctx.rng.uniform(-1, 1, mod.flat().shape))
        mod.params = mod.unflat(flat)
    if not mod.valid(mod.flat()):
        raise Skip()
    return mod


def prepared(ctx, mod, method):
    """a model, that may have been fitted successfully before"""
    m = mod.build()
    had = False
    if ctx.chance(.5):
        r, _ = run(m, mod, max_steps=80, method=ctx.choice([method, "newton"]))
        had = r is True
        if had and ctx.chance(.8):
            # the next fit starts elsewhere, estimates are those of the first
            mod.start(m)
    ctx.event("fitted before" if had else "not fitted before")
    return m, had


def outcome(m, r):
    if isinstance(r, Exception):
        return type(r).__name__, str(r)
    return r, tuple(canon(p) for p in m.params)


def plausible(ctx, mod, m, what):
    """a reported success is a stationary point"""
    x = mod.flat([np.ma.getdata(p) for p in m.get_params()])
    ctx.check(np.all(np.isfinite(x)), "success with finite parameters", what)
    free, Z, g, H, _ = reduced(mod, x)
    if len(g):
        w, V = np.linalg.eigh(H)
        r = V.T @ g
        gain = float((r ** 2 / (2 * np.maximum(np.abs(w), 1e-3))).sum() / mod.data["N"].sum())
        ctx.check(gain <= 1e-5 * (abs(mod.mean(x)) + 1e-3), "no success far from the maximum",
                  lambda: "%s: %g can be gained" % (what, gain))


def judge_failure(ctx, r, mod, kinds=(ConvergenceError,)):
    if isinstance(r, kinds):
        ctx.event("judged:documented exception")
        return
    if mod.kind == "nfinite" and isinstance(r, (AssertionError, np.linalg.LinAlgError)):
        return      # rates that aren't defined
    if isinstance(r, np.linalg.LinAlgError):
        ctx.event("singular information")
        return
    raise Violation("documented exception", "%s: %s" % (type(r).__name__, r))


def like_fresh(ctx, mod, m, fresh, a, b, warm):
    """warm: a Broyden fit that may start from earlier information"""
    if warm:
        if a is True and b is True:
            plausible(ctx, mod, m, "later fit")
        return
    ctx.check(outcome(m, a) == outcome(fresh, b), "later fit like a fresh one",
              lambda: "%s, fresh %s" % (a, b))
    if a is True:
        ctx.event("later fit succeeded")
        ctx.check(snapshot(m) == snapshot(fresh), "later reports like fresh ones")


def steps(ctx):
    """every step limit"""
    mod = problem(ctx)
    method = ctx.choice(["newton", "broyden"])
    tol = ctx.choice([1e-8, 1e-4, 1e-12])
    m, had = prepared(ctx, mod, method)
    mod.start(m)
    if method == "broyden":
        # (after a success it starts from its own information)
        had = had and not getattr(m, "converged", False)
        m = m if had else mod.build()
    ctx.note(method, tol, "fitted before" if had else "")
    ctx.sig(method, tol, had)
    succeeded = None
    for k in [*range(31), 60] if ctx.chance(.3) else [0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 25, 60]:
        before = snapshot(m)
        r, _ = run(m, mod, max_steps=k, method=method, tol=tol)
        if r is True:
            ctx.check(k > 0, "no success without a step")
            plausible(ctx, mod, m, "max_steps %d" % k) if tol <= 1e-8 else None
            if succeeded is None:
                succeeded = outcome(m, r)
                ctx.event("steps of the first success: %d" % k)
            else:
                ctx.check(outcome(m, r) == succeeded, "same result for larger limits")
            mod.start(m)
            if method == "broyden":
                m = mod.build()     # (a converged model starts from its own information)
        else:
            ctx.check(isinstance(r, Exception), "fit raises instead of returning",
                      lambda: repr(r))
            judge_failure(ctx, r, mod)
            ctx.check(succeeded is None, "success for a smaller limit",
                      lambda: "max_steps %d: %s" % (k, r))
            same_state(ctx, m, before, "max_steps %d" % k)
            ctx.event("failed fits")
    # fresh model
    if succeeded is not None:
        f = mod.build()
        r, _ = run(f, mod, max_steps=60, method=method, tol=tol)
        ctx.check(outcome(f, r) == succeeded, "failed fits before don't matter",
                  lambda: "%s" % (r,))


def long(ctx):
    """a start many Newton steps above the maximum, each of which improves the objective"""
    n = ctx.randint(1, 6)
    N = ctx.rng.uniform(.5, 3, n).round(2)
    X_ = ctx.rng.poisson(3, n) + 1.
    best = np.log(X_.sum() / N.sum())
    far = ctx.rng.uniform(5, 160)
    m = maxlike.Poisson()
    m.model = maxlike.func.Scalar()
    m.add_param(best + far)
    ctx.note("scalar", N.tolist(), X_.tolist(), far)
    ctx.sig(n, round(far))
    # the steps are nearly of length one
    t, need = far, 0
    while t > 1e-9:
        t, need = t - 1 + np.exp(-t), need + 1
    limits = sorted({need // 2, need - 12, need + 10, 2 * need, 5 * need, 1000} - {0})
    verbose = ctx.choice([0, 0, 1, 5])
    for k in [k for k in limits if k > 0]:
        before = snapshot(m)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            try:
                r = m.fit(N=N, X=X_, max_steps=k, verbose=verbose)
            except Exception as e:
                r = e
        if r is True:
            ctx.check(k > need - 12, "no success that early", lambda: "%d of %d" % (k, need))
            ctx.close(float(np.ravel(np.ma.getdata(m.get_params()[0]))[0]), best, "estimate",
                      rtol=0, atol=1e-3)
            ctx.event("long fits", need)
            m = maxlike.Poisson()
            m.model = maxlike.func.Scalar()
            m.add_param(best + far)
        else:
            ctx.check(isinstance(r, ConvergenceError) and k < need + 10,
                      "success within the steps allowed",
                      lambda: "%d steps, %d needed: %r" % (k, need, r))
            same_state(ctx, m, before, "max_steps %d" % k)
            ctx.event("failed fits")


def faults(ctx):
    mod = problem(ctx)
    method = ctx.choice(["newton", "broyden"])
    kind = ctx.choice(["raise", "raise", "nan", "nan", "reverse"])
    m, had = prepared(ctx, mod, method)
    at = ctx.randint(1, 12)
    period = ctx.chance(.5)
    if kind == "reverse":
        at, period = 1, True
    ctx.note(method, kind, "at", at, period, "fitted before" if had else "")
    ctx.sig(method, kind, at, period)
    good = m.model
    m.model = Proxy(good, at, kind, period)
    before = snapshot(m)
    f0 = None
    r, _ = run(m, mod, max_steps=40, method=method)
    fired = m.model.fired
    m.model = good
    if fired:
        ctx.event("fault met: " + kind)
    if r is True:
        if kind == "raise":
            ctx.check(not fired, "exception of the model is not hidden")
        if kind == "nan" or not fired:
            plausible(ctx, mod, m, kind)
    else:
        ctx.check(isinstance(r, Exception), "fit raises instead of returning", lambda: repr(r))
        if kind == "raise" and fired:
            ctx.check(isinstance(r, Fault), "exception of the model", lambda: repr(r))
        same_state(ctx, m, before, "%s at %d" % (kind, at))
        # later fits are those of a fresh model
        mod.start(m)
        fresh = mod.build()
        a, _ = run(m, mod, max_steps=40, method=method)
        b, _ = run(fresh, mod, max_steps=40, method=method)
        like_fresh(ctx, mod, m, fresh, a, b, had and method == "broyden")


def decrease(ctx):
    """the objective can't be improved along the steps"""
    mod = problem(ctx, kind=ctx.choice(["poisson", "logistic", "nb"]), cons=False)
    m, had = prepared(ctx, mod, "newton")
    x = mod.flat([np.ma.getdata(p) for p in m.get_params()])
    free, Z, g, H, _ = reduced(mod, x)
    if not len(g) or np.linalg.eigvalsh(H).max() > -1e-1:
        raise Skip()
    gain = float(-g @ np.linalg.solve(H, g)) / mod.data["N"].sum()
    if gain < 1e-2:
        raise Skip()
    # reversed derivatives of the (linear) predictor reverse the score, but not
    # the penalties, so leave these out
    if mod.regs:
        raise Skip()
    good = m.model
    m.model = Proxy(good, 1, "reverse", True)
    before = snapshot(m)
    verbose = ctx.randint(0, 2)
    ctx.note("reversed", verbose); ctx.sig(verbose, had)
    r, _ = run(m, mod, method="newton", verbose=verbose)
    m.model = good
    ctx.check(isinstance(r, ConvergenceError), "objective that doesn't increase is refused",
              lambda: repr(r))
    same_state(ctx, m, before, "reversed score")


def methods(ctx):
    mod = problem(ctx, max_feat=2)
    m, had = prepared(ctx, mod, "newton")
    name = ctx.choice(["newtn", "bfgs", "", "new ton", "broyden2", "Newton ", "cg", "powell", "1"])
    before = snapshot(m)
    ctx.note(name); ctx.sig(name, had)
    r, _ = run(m, mod, method=name, verbose=ctx.randint(0, 2))
    ctx.check(isinstance(r, ValueError), "unknown method is a ValueError", lambda: repr(r))
    same_state(ctx, m, before, "method %r" % name)


def bad_data(ctx):
    """data that don't fit the model"""
    mod = problem(ctx, max_feat=2)
    method = ctx.choice(["newton", "broyden"])
    m, had = prepared(ctx, mod, method)
    data = {k: np.array(v) for k, v in mod.data.items()}
    kind = ctx.choice(["shape", "nan", "zero", "singular"])
    for k in data:
        if kind == "shape":
            data[k] = np.ones([s + 1 for s in data[k].shape])
        elif kind == "nan":
            data[k].flat[0] = np.nan
        elif kind == "zero":
            data[k][...] = 0
    ctx.note(kind, method); ctx.sig(kind, method, had)
    before = snapshot(m)
    if kind == "singular":
        # a parameter without information
        if m.constraint:
            raise Skip()
        data = {k: np.where(np.arange(v.shape[0]).reshape((-1,) + (1,) * (v.ndim - 1)) == 0,
                            0, v) for k, v in data.items()}
    r, _ = run(m, mod, data=data, method=method, max_steps=30)
    if r is True:
        ctx.event("fit of awkward data succeeded: " + kind)
        ctx.check(kind in ("singular", "shape"), "success with unusable data", kind)
        return
    ctx.check(isinstance(r, Exception), "fit raises instead of returning", lambda: repr(r))
    ctx.event("refused data: " + kind)
    same_state(ctx, m, before, kind)
    mod.start(m)
    fresh = mod.build()
    a, _ = run(m, mod, max_steps=40, method=method)
    b, _ = run(fresh, mod, max_steps=40, method=method)
    like_fresh(ctx, mod, m, fresh, a, b, had and method == "broyden")


def verbosity(ctx):
    mod = problem(ctx)
    method = ctx.choice(["newton", "broyden"])
    limit = ctx.choice([0, 1, 3, 6, 60])
    tol = ctx.choice([1e-8, 1e-5, 1e-12])
    where = ctx.choice(["start", "start", "maximum", "near"])
    scale = 10. ** -ctx.randint(3, 6)
    shift = ctx.rng.uniform(-1, 1, mod.flat().shape) * ~mod.mask() * scale
    fault = ctx.randint(1, 9) if ctx.chance(.2) else None
    kind = ctx.choice(["raise", "nan", "reverse"])
    twice = ctx.chance(.4)
    ctx.note(method, limit, tol, fault, kind, twice)
    ctx.sig(method, limit, tol, fault, kind, twice)
    first = None
    for v in (0, 1, 2, 3, True):
        m = mod.build()
        if twice:
            run(m, mod, max_steps=60, method=method, verbose=v)
            mod.start(m)
        if where != "start" and not fault:
            # a fit that has hardly anything left to improve
            done, _ = run(m, mod, max_steps=60)
            if done is True and where == "near":
                x = mod.flat([np.ma.getdata(p) for p in m.get_params()]) + shift
                mod.start(m, mod.unflat(x))
        if fault:
            m.model = Proxy(m.model, fault, kind, True)
        r, text = run(m, mod, max_steps=limit, method=method, tol=tol, verbose=v)
        if fault:
            m.model = m.model.f
        o = (outcome(m, r), snapshot(m))
        if first is None:
            first = o
            ctx.check(text == "", "nothing is printed by default", text[:200])
        else:
            ctx.check(o == first, "verbosity is inert", lambda: "verbose=%r: %s instead of %s" % (
                v, str(o[0])[:300], str(first[0])[:300]))
            ctx.event("printed lines", text.count("\n"))
    ctx.event("outcome %s" % (first[0][0],))


WORKLOADS = [("steps", steps, 100, 2000), ("faults", faults, 200, 4000),
             ("decrease", decrease, 300, 2000), ("methods", methods, 150, 1500),
             ("bad_data", bad_data, 150, 2000), ("verbosity", verbosity, 150, 1500),
             ("long", long, 40, 500)]
