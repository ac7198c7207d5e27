"""C27: results don't depend on history, other models or threads."""
import os
import pickle
import random
import subprocess
import sys
import threading
import time
import zlib
import numpy as np
import maxlike
from .core import Skip, Violation, Ctx, HERE
from .digest import canon
from .exprs import Gen
from .models import *
from .c05 import setup
from .c20 import run as fit_run, REPORTS, Fault, Proxy

RULE = ("two to four random models (also sharing expressions, regularisation objects and data "
        "arrays) go through random histories: fits by both methods, failing fits (step limits, "
        "faults, bad data), other data, reads of the reports, evaluations elsewhere; afterwards "
        "each is fitted from its start and the outcome compared bitwise with the one of a forked "
        "child that did nothing else (some with the one of a new interpreter). Fits also run in "
        "concurrent threads, with a tiny switch interval and injected yields, and are compared "
        "with their sequential outcomes. Distinct by models and histories; interleavings are "
        "counted from the log of the evaluations.")
ASSUMPTIONS = ["a Broyden fit that follows a successful one starts from its information by design; "
               "such fits are compared within the tolerance",
               "a single model object isn't used by two threads at the same time"]


def outcome(m, r):
    """everything that a fit determines"""
    if isinstance(r, Exception):
        out = [type(r).__name__, str(r)]
    else:
        out = [repr(r)]
    out.append(tuple(canon(p) for p in m.params))
    if r is True:
        for name in REPORTS + ("akaine_information_criterion", "bayesian_information_criterion"):
            try:
                out.append(canon(getattr(m, name)()))
            except Exception as e:
                out.append(type(e).__name__)
    return out


def isolated(fn):
    """runs fn in a forked child"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "wb") as f:
                pickle.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        raise Skip()
    return pickle.loads(data)


class Job:
    """a model with the settings of its fit"""

    def __init__(self, ctx, mod):
        self.mod = mod
        self.kw = dict(method=ctx.choice(["newton", "newton", "broyden", "broyden"]),
                       max_steps=ctx.choice([60, 60, 60, 2, 4]),
                       tol=ctx.choice([1e-8, 1e-5, 1e-11]))

    def fresh(self):
        m = self.mod.build()
        r, _ = fit_run(m, self.mod, **self.kw)
        return outcome(m, r)


def jobs(ctx, n):
    out = []
    while len(out) < n:
        share = ctx.chance(.4) and out
        if share:
            # the same expression and data arrays, other starts / data
            old = out[0].mod
            mod = Model(old.kind, old.hyper, old.e, old.params, old.masks, old.cons, old.regs,
                        old.data)
            mod.valid, mod.concave = old.valid, old.concave
            if ctx.chance(.5):
                flat = mod.flat() + np.where(mod.mask(), 0, ctx.rng.uniform(-.3, .3, mod.flat().shape))
                mod.params = mod.unflat(flat)
            if ctx.chance(.5):
                mod.data = {k: v * 2 for k, v in old.data.items()}
            ctx.note("shares the expression")
        else:
            mod = well_posed(ctx, max_feat=2, steps=(5, 7), kind=ctx.choice(
                ["poisson", "logistic", "nb", "zip", "finite", "nfinite"]))
        if not mod.valid(mod.flat()):
            raise Skip()
        out.append(Job(ctx, mod))
    return out


def disturb(ctx, job, m, others):
    """something that must not matter later"""
    mod = job.mod
    kind = ctx.choice(["fit", "fit", "broyden", "fail", "fault", "bad", "other", "read", "eval",
                       "params"])
    ctx.event("history: " + kind)
    if kind in ("fit", "broyden"):
        fit_run(m, mod, method="newton" if kind == "fit" else "broyden", max_steps=60)
    elif kind == "fail":
        fit_run(m, mod, method=ctx.choice(["newton", "broyden"]), max_steps=ctx.randint(0, 2))
    elif kind == "fault":
        good = m.model
        m.model = Proxy(good, ctx.randint(1, 5), ctx.choice(["raise", "nan", "reverse"]), True)
        fit_run(m, mod, method=ctx.choice(["newton", "broyden"]), max_steps=20)
        m.model = good
    elif kind == "bad":
        fit_run(m, mod, data={k: np.ones((7,) * max(1, np.ndim(v))) for k, v in mod.data.items()})
    elif kind == "other":
        t = ctx.choice([3., .5, 1 + 1e-7, 1 + 1e-10])
        fit_run(m, mod, data={k: v * (t if t != 3 or ctx.chance(.5) else .5)
                              for k, v in mod.data.items()},
                method=ctx.choice(["newton", "broyden"]))
    elif kind == "read":
        for name in REPORTS + ("akaine_information_criterion",):
            try:
                getattr(m, name)()
            except Exception:
                pass
    elif kind == "eval":
        p = [v + ctx.rng.uniform(-.1, .1, np.shape(v)) for v in mod.params]
        for fn in (m.model, m.model.grad, m.model.hess, m.model.eval):
            try:
                fn(p)
            except AssertionError:
                pass
        for _, f, _ in mod.cons + mod.regs:
            pass
    else:
        m.reset_params()
        for v in mod.params[::-1]:
            m.add_param(v + 1)
    return kind


def histories(ctx):
    J = jobs(ctx, ctx.randint(2, 4))
    ctx.note([j.kw for j in J])
    want = isolated(lambda: [j.fresh() for j in [J[0]]] +
                    [isolated(j.fresh) for j in J[1:]])
    ms = [j.mod.build() for j in J]
    hist = []
    for _ in range(ctx.randint(2, 8)):
        k = ctx.randint(0, len(J) - 1)
        hist.append((k, disturb(ctx, J[k], ms[k], J)))
    ctx.note("history", hist)
    ctx.sig(tuple(hist), [(j.mod.kind, tuple(sorted(j.kw.items()))) for j in J])
    for k in ctx.perm(len(J)):
        j, m = J[k], ms[k]
        warm = getattr(m, "converged", False) and j.kw["method"] == "broyden"
        j.mod.start(m)
        r, _ = fit_run(m, j.mod, **j.kw)
        got = outcome(m, r)
        if warm:
            ctx.event("warm Broyden fit")
            if r is True and want[k][0] == "True":
                near(ctx, j, m, want[k])
            continue
        ctx.check(got[:2] == want[k][:2], "outcome doesn't depend on the history",
                  lambda: "model %d: %s instead of %s" % (k, str(got[:2])[:600],
                                                          str(want[k][:2])[:600]))
        ctx.check(got == want[k], "reports don't depend on the history",
                  lambda: "model %d: %s instead of %s" % (k, str(got)[:800], str(want[k])[:800]))
        ctx.event("compared outcomes: " + got[0])
        # again
        if got[0] == "True" and j.kw["method"] == "newton":
            j.mod.start(m)
            r, _ = fit_run(m, j.mod, **j.kw)
            ctx.check(outcome(m, r) == got, "refit from the same start")
        # a new object
        if ctx.chance(.3):
            ctx.check(j.fresh() == want[k], "new object after the history")


def near(ctx, j, m, want):
    """Broyden from other information: the same estimates up to the tolerance"""
    a = np.concatenate([np.frombuffer(p[1][3]) for p in want[1]])
    b = j.mod.flat([np.ma.getdata(p) for p in m.get_params()])
    if not j.mod.concave or j.kw["tol"] > 1e-8:
        return
    fa, fb = j.mod.mean(a), j.mod.mean(b)
    ctx.check(abs(fa - fb) <= 100 * j.kw["tol"] * (abs(fa) + 1e-3) + 1e-11, "warm Broyden fit",
              lambda: "%r instead of %r" % (fb, fa))


# ---------------------------------------------------------------------------
class Yielding:
    """the model, that logs its evaluations and gives way to other threads"""

    def __init__(self, f, name, log, rng):
        self.f, self.name, self.log, self.rng = f, name, log, rng

    def step(self):
        self.log.append(self.name)
        u = self.rng.random()
        if u < .3:
            time.sleep(0)
        elif u < .45:
            time.sleep(self.rng.random() * 2e-4)

    def __call__(self, params):
        self.step(); r = self.f(params); self.step()
        return r

    def grad(self, params, *a):
        self.step(); r = self.f.grad(params, *a); self.step()
        return r

    def hess(self, params, *a):
        self.step(); r = self.f.hess(params, *a); self.step()
        return r

    def eval(self, params):
        self.step(); r = self.f.eval(params); self.step()
        return r


def threads(ctx):
    J = jobs(ctx, ctx.randint(2, 4))
    ctx.note([j.kw for j in J])
    want = [isolated(j.fresh) for j in J]
    n = ctx.randint(1, 2)
    log, got, errors = [], {}, []
    work = []
    for k, j in enumerate(J):
        for c in range(n):
            m = j.mod.build()
            m.model = Yielding(m.model, (k, c), log,
                               random.Random(ctx.randint(0, 2 ** 31)))
            work.append(((k, c), j, m))
    barrier = threading.Barrier(len(work))

    def body(key, j, m):
        try:
            barrier.wait()
            # (standard output is shared by the threads, so nothing is captured)
            try:
                r = m.fit(**j.kw, **j.mod.data)
            except Exception as e:
                r = e
            m.model = m.model.f
            got[key] = outcome(m, r)
        except BaseException as e:
            errors.append(e)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=body, args=w, daemon=True) for w in work]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if errors or len(got) < len(work):
        raise Violation("thread failed", repr(errors))
    switches = sum(a != b for a, b in zip(log, log[1:]))
    ctx.event("evaluations in threads", len(log))
    ctx.event("switches between models", switches)
    ctx.sig(tuple(log))     # the interleaving
    for (k, c), j, m in work:
        g = got[(k, c)]
        ctx.check(g == want[k], "outcome doesn't depend on other threads",
                  lambda: "model %d: %s instead of %s" % (k, str(g)[:800], str(want[k])[:800]))
        ctx.event("compared outcomes: " + g[0])


def grown(ctx):
    """constraints, penalties and free entries that come after an earlier fit"""
    j = jobs(ctx, 1)[0]
    mod = j.mod
    j.kw["method"] = ctx.choice(["newton", "broyden", "broyden"])
    what = ctx.choice(["constraint", "penalty", "masks"])
    want = isolated(j.fresh)
    # the model before it grew
    small = Model(mod.kind, mod.hyper, mod.e, mod.params, mod.masks, list(mod.cons),
                  list(mod.regs), mod.data)
    added = []
    if what == "masks":
        small.masks = [np.ones(np.shape(p), bool) if ctx.chance(.5) else k
                       for p, k in zip(mod.params, mod.masks)]
        if small.mask().all() or np.array_equal(small.mask(), mod.mask()):
            raise Skip()
    else:
        L = small.cons if what == "constraint" else small.regs
        if not L:
            raise Skip()
        for _ in range(ctx.randint(1, len(L))):
            added.insert(0, L.pop())
    m = small.build()
    first = ctx.choice(["broyden", "broyden", "newton"])
    r, _ = fit_run(m, small, method=first, max_steps=60)
    ctx.note("grown by", what, len(added), "first", first, "then", j.kw, "first fit", repr(r))
    ctx.sig(what, len(added), first, tuple(sorted(j.kw.items())), mod.kind, mod.e.text)
    before = np.shape(getattr(m, "flat_hess_", 0))
    for pm, f, _ in added:
        (m.add_constraint if what == "constraint" else m.add_regularization)(
            pm if len(pm) > 1 else pm[0], f)
    mod.start(m)
    after = int((~mod.mask()).sum()) + len(mod.cons)
    warm = getattr(m, "converged", False) and j.kw["method"] == "broyden" and \
        before == (after, after)
    ctx.event("first fit: " + repr(r)[:20])
    r, _ = fit_run(m, mod, **j.kw)
    got = outcome(m, r)
    if warm:
        ctx.event("warm Broyden fit")
        if r is True and want[0] == "True":
            near(ctx, j, m, want)
        return
    ctx.check(got == want, "grown model", lambda: "%s instead of %s" % (
        str(got)[:700], str(want)[:700]))
    ctx.event("compared outcomes: " + got[0])


# ---------------------------------------------------------------------------
FRESH = """
import sys, pickle
sys.path.insert(0, %r)
import numpy as np
from mon import core, c27
import collections
stats = dict(events=collections.Counter(), known=collections.Counter())
ctx = core.Ctx("C27", "interpreter", %d, %d, "quick", stats)
with np.errstate(all="ignore"):
    J = c27.jobs(ctx, 2)
    k = %d
    out = J[k].fresh()
sys.stdout.buffer.write(pickle.dumps(out))
"""


def interpreter(ctx):
    """new interpreters, that rebuild the same problem"""
    J = jobs(ctx, 2)
    k = ctx.randint(0, 1)
    out = subprocess.run([sys.executable, "-W", "ignore", "-c",
                          FRESH % (HERE, ctx.seed, ctx.index, k)],
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if out.returncode:
        raise RuntimeError(out.stderr.decode()[-400:])
    want = pickle.loads(out.stdout)
    ms = [j.mod.build() for j in J]
    hist = []
    for _ in range(ctx.randint(1, 6)):
        q = ctx.randint(0, 1)
        kind = disturb(ctx, J[q], ms[q], J)
        hist.append((q, kind))
    ctx.note("history", hist)
    ctx.sig(tuple(hist))
    got = J[k].fresh()
    ctx.check(got == want, "same outcome as in a new interpreter",
              lambda: "%s instead of %s" % (str(got)[:800], str(want)[:800]))
    ctx.event("compared outcomes: " + got[0])


# ---------------------------------------------------------------------------
def expressions(ctx):
    """evaluations in between, also of arrays that the caller changes in place"""
    g, F, P, e, params = setup(ctx)
    f = e.f
    want = {}

    def observe(p):
        return (canon(np.asarray(f(p).toarray())),
                [canon(np.asarray(t.toarray())) for t in f.grad(p)],
                [[canon(np.asarray(t.toarray())) for t in r] for r in f.hess(p)],
                canon(np.asarray(f.eval(p)[0].toarray())))
    points = [[p + ctx.rng.uniform(-.2, .2, np.shape(p)) for p in params] for _ in range(3)]
    want = isolated(lambda: [observe(p) for p in points])
    work = [np.array(p) for p in points[0]]     # the caller's memory
    as_param = ctx.chance(.3)
    for _ in range(6):
        k = ctx.randint(0, 2)
        for w, p in zip(work, points[k]):
            w[...] = p
        c = work
        if as_param:
            c = [maxlike.maxlike_base.Param(w) for w in work]
        got = observe(c)
        ctx.check(got == want[k], "evaluation doesn't depend on earlier ones",
                  lambda: "point %d" % k)


# ---------------------------------------------------------------------------
class Scheduler:
    """
    Runs functions in threads, one at a time. Before any line of the library a
    seeded generator decides whether another thread goes on, so that threads
    can be interrupted anywhere and every schedule can be replayed.
    """

    def __init__(self, seed, p, meet=False, only=None):
        """
        meet: threads wait for each other at one line at a time, so that they
        are in the same place; only: in these files
        """
        self.rng, self.p = random.Random(seed), p
        self.meet, self.only = meet, only
        self.seen, self.index, self.target, self.hits, self.since = [], set(), None, 0, 0
        self.path = os.path.realpath(os.path.dirname(maxlike.__file__)) + os.sep
        self.files, self.log, self.steps = {}, [], 0

    def ours(self, code):
        f = code.co_filename
        if f not in self.files:
            self.files[f] = os.path.realpath(f).startswith(self.path)
        return self.files[f]

    def switch(self, frame):
        if not self.meet:
            return self.rng.random() < self.p
        at = (frame.f_code, frame.f_lineno)
        if at not in self.index and (
                not self.only or os.path.basename(at[0].co_filename) in self.only):
            self.index.add(at)
            self.seen.append(at)
        self.since += 1
        if at == self.target:
            self.hits += 1
            return True
        if self.seen and (self.target is None or self.hits > 3 or self.since > 4000):
            self.target, self.hits, self.since = self.rng.choice(self.seen), 0, 0
        return False

    def run(self, fns):
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = list(range(len(fns)))
        out = [None] * len(fns)

        def wait(k):
            if not self.sems[k].acquire(timeout=120):
                raise TimeoutError("schedule")

        def body(k):
            wait(k)

            def line(frame, event, arg):
                if event == "line":
                    self.steps += 1
                    if self.switch(frame):
                        j = self.rng.choice(self.alive)
                        if j == k and self.meet and len(self.alive) > 1:
                            j = self.rng.choice([i for i in self.alive if i != k])
                        if j != k:
                            self.log.append((k, frame.f_lineno, j))
                            self.sems[j].release()
                            wait(k)
                return line

            def call(frame, event, arg):
                return line if self.ours(frame.f_code) else None
            sys.settrace(call)
            try:
                with np.errstate(all="ignore"):
                    out[k] = (True, fns[k]())
            except BaseException as e:
                out[k] = (False, e)
            finally:
                sys.settrace(None)
                self.alive.remove(k)
                if self.alive:
                    self.sems[self.rng.choice(self.alive)].release()
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(fns))]
        for t in ts:
            t.start()
        self.sems[self.rng.choice(self.alive)].release()
        for t in ts:
            t.join(200)
        if any(t.is_alive() for t in ts):
            raise Skip()
        return out


def observation(f, p):
    return (canon(np.asarray(f(p).toarray())),
            [canon(np.asarray(t.toarray())) for t in f.grad(p)],
            [[canon(np.asarray(t.toarray())) for t in r] for r in f.hess(p)],
            [canon(np.asarray(t.toarray())) for t in f.eval(p)[1]])


def schedules(ctx):
    """one expression evaluated by several threads, interrupted anywhere"""
    g, F, P, e, params = setup(ctx, depth=ctx.randint(0, 1))
    n = ctx.randint(2, 3)
    points = [[p + ctx.rng.uniform(-.2, .2, np.shape(p)) for p in params] for _ in range(n)]
    want = isolated(lambda: [observation(e.f, p) for p in points])
    sch = Scheduler(ctx.randint(0, 2 ** 31), ctx.choice([.01, .05, .2]),
                    ctx.chance(.6))
    got = sch.run([lambda p=p: observation(e.f, p) for p in points])
    ctx.event("scheduling points", sch.steps)
    ctx.event("switches inside the library", len(sch.log))
    ctx.sig(tuple(sch.log))
    for k, (ok, v) in enumerate(got):
        ctx.check(ok, "evaluation in a thread", lambda: "%s: %s" % (type(v).__name__, v))
        ctx.check(v == want[k], "evaluation doesn't depend on other threads",
                  lambda: "thread %d of %d, %d switches" % (k, n, len(sch.log)))


def fit_schedules(ctx):
    """fits of several models, that share what they can, interrupted anywhere"""
    J = jobs(ctx, 2)
    for j in J:
        j.kw["max_steps"] = min(j.kw["max_steps"], 12)
    if ctx.chance(.6):
        # the same lines of the library at the same time
        for k in ("method", "max_steps"):
            J[1].kw[k] = J[0].kw[k]
    ctx.note([j.kw for j in J])
    want = [isolated(j.fresh) for j in J]
    ms = [j.mod.build() for j in J]
    sch = Scheduler(ctx.randint(0, 2 ** 31), ctx.choice([.002, .01, .05]),
                    ctx.chance(.75), ctx.choice([None, ["maxlike_base.py"], ["maxlike_base.py"],
                                                 ["maxlike_base.py", "maxlike.py"]]))

    def run(j, m):
        try:
            return m.fit(**j.kw, **j.mod.data)
        except Exception as e:
            return e
    got = sch.run([lambda j=j, m=m: outcome(m, run(j, m)) for j, m in zip(J, ms)])
    ctx.event("scheduling points", sch.steps)
    ctx.event("switches inside the library", len(sch.log))
    ctx.sig(tuple(sch.log))
    for k, (ok, v) in enumerate(got):
        ctx.check(ok, "fit in a thread", lambda: "%s: %s" % (type(v).__name__, v))
        ctx.check(v == want[k], "fit doesn't depend on other threads",
                  lambda: "model %d: %s instead of %s" % (k, str(v)[:600], str(want[k])[:600]))
        ctx.event("compared outcomes: " + v[0])


WORKLOADS = [("grown", grown, 80, 2500),
             ("schedules", schedules, 100, 3000), ("fit_schedules", fit_schedules, 120, 2000),
             ("histories", histories, 120, 2500), ("threads", threads, 60, 1200),
             ("interpreter", interpreter, 24, 300), ("expressions", expressions, 150, 3000)]
