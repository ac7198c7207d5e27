"""
Driver of the runtime monitors.

A property module (mon/cXX.py) defines
    RULE        how cases are made and what makes one non-trivial
    WORKLOADS   list of (name, function(ctx), quick cases, thorough cases)
Every case runs the real code of /repo on a generated workload, while the
oracles (ctx.check / ctx.call) observe what it returns. Cases are seeded by
(VERIF_SEED, property, workload, index), so that any of them can be replayed.
"""
import argparse, collections, hashlib, importlib, json, multiprocessing, os
import pickle, resource, signal, sys, tempfile, time, traceback
import numpy as np

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MAXLIKE_REPO", "/repo")
OUT = os.environ.get("MON_OUT", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known_findings.txt")


class Violation(Exception):
    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail = kind, detail


class Skip(Exception):
    """The generated case is outside of the domain of the property."""


class Ctx:
    """What a case uses to generate, observe and judge."""

    def __init__(self, prop, workload, seed, index, tier, stats):
        self.prop, self.workload, self.index, self.tier = prop, workload, index, tier
        self.seed = seed
        key = hashlib.sha256(("%s/%s" % (prop, workload)).encode()).digest()[:4]
        self.rng = np.random.default_rng(
            [int(seed) & 0xffffffff, int.from_bytes(key, "big"), int(index)])
        self.stats = stats
        self.desc = []      # description of the case
        self.signature = [] # what makes the case distinct
        self.trivial = False
        self.known = []     # known findings met in this case

    # ------------------------------------------------------------ random
    def chance(self, p):
        return bool(self.rng.random() < p)

    def randint(self, a, b):
        """a <= n <= b"""
        return int(self.rng.integers(a, b + 1))

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]

    def perm(self, n):
        return [int(i) for i in self.rng.permutation(n)]

    def sample(self, n, k):
        """k distinct numbers below n, in random order"""
        return [int(i) for i in self.rng.permutation(n)[:k]]

    # ------------------------------------------------------------ logging
    def note(self, *args):
        self.desc.append(" ".join(str(a) for a in args))

    def sig(self, *args):
        self.signature.append(args)

    def event(self, name, n=1):
        self.stats["events"][name] += n

    # ------------------------------------------------------------ oracle
    def check(self, cond, kind, detail=""):
        self.stats["events"]["judged:" + kind] += 1
        if not cond:
            raise Violation(kind, detail() if callable(detail) else detail)

    def close(self, got, want, kind, rtol=1e-9, atol=1e-9, detail=""):
        """got and want are arrays of the same shape, equal up to rounding"""
        got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.stats["events"]["judged:" + kind] += 1
        if got.shape != want.shape:
            raise Violation(kind, "shape %s instead of %s %s" % (
                got.shape, want.shape, detail() if callable(detail) else detail))
        ok = np.abs(got - want) <= atol + rtol * np.abs(want)
        ok |= (got == want)
        ok |= np.isnan(got) & np.isnan(want)
        if not np.all(ok):
            bad = np.argwhere(~ok)[0] if ok.ndim else ()
            raise Violation(kind, "at %s: got %r, expected %r %s" % (
                tuple(int(b) for b in bad), float(got[tuple(bad)]),
                float(want[tuple(bad)]),
                detail() if callable(detail) else detail))

    def call(self, kind, fn, *args, **kwargs):
        """Runs an operation that has to be supported."""
        try:
            return fn(*args, **kwargs)
        except (Violation, Skip, MemoryError, TimeoutError):
            raise
        except Exception as e:
            raise Violation(kind + ":raised", "%s: %s | %s" % (
                type(e).__name__, str(e)[:200], where(e)))

    def finding(self, key, text):
        """
        A violation that is recognised as the recorded mechanism 'key'. It is
        reported as a known finding when it is listed, otherwise it counts.
        """
        if key in known_findings(self.prop):
            self.known.append(key)
            self.stats["known"][key] += 1
            return
        raise Violation(key, text)


def where(e):
    fr = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno)
                      for f in reversed(fr[-4:]))


_known = None


def known_findings(prop):
    """keys of the recorded, unrepaired findings of the property"""
    global _known
    if _known is None:
        _known = collections.defaultdict(dict)
        try:
            with open(KNOWN) as f:
                for line in f:
                    if line.startswith("known: "):
                        head, text = line[7:].split("|", 1)
                        parts = dict(p.split("=", 1) for p in head.split())
                        _known[parts["property"]][parts["key"]] = text.strip()
        except FileNotFoundError:
            pass
    return _known[prop]


class CaseTimeout(BaseException):
    pass


class CaseHang(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _cpu_alarm(signum, frame):
    raise CaseHang()


def run_case(prop, name, fn, seed, index, tier, stats, limit):
    """
    returns (ctx, violation or None)

    A case takes milliseconds to a few seconds. One that burns 'limit' seconds
    of processor time, or exhausts the address space of its worker, does not
    deliver what it was asked for. (Wall clock time is no verdict.)
    """
    ctx = Ctx(prop, name, seed, index, tier, stats)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _cpu_alarm)
    signal.setitimer(signal.ITIMER_REAL, 3 * limit)
    signal.setitimer(signal.ITIMER_PROF, limit)
    try:
        with np.errstate(all="ignore"):
            fn(ctx)
        return ctx, None
    except Skip:
        stats["events"]["skipped"] += 1
        ctx.trivial = True
        return ctx, None
    except Violation as v:
        return ctx, v
    except CaseTimeout:
        # a watchdog is no verdict
        stats["events"]["watchdog"] += 1
        ctx.trivial = True
        return ctx, None
    except MemoryError:
        return ctx, Violation("memory", "the case exhausted its memory")
    except CaseHang:
        return ctx, Violation("hang", "no answer after %d s of processor time" % limit)
    except Exception as e:
        # an operation or the inspection of its result failed
        return ctx, Violation("unexpected:" + type(e).__name__, "%s | %s" % (
            str(e)[:300], where(e)))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)


def write_replay(prop, seed, tier, name, index, v, ctx):
    d = os.path.join(OUT, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, name, seed, index))
    with open(path, "w") as f:
        json.dump(dict(property=prop, workload=name, index=index, seed=seed,
                       tier=tier, kind=v.kind, detail=str(v.detail)[:4000],
                       case=ctx.desc[-40:],
                       command="python3 run_check.py %s --replay %s" % (prop, path)),
                  f, indent=1)
    return path


def fork_all(work, jobs):
    """work(0) .. work(jobs - 1) in processes of their own"""
    children = []
    for job in range(jobs):
        f = tempfile.TemporaryFile()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                pickle.dump(work(job), f)
                f.flush()
            except BaseException:
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        children.append((pid, f))
    out = []
    for pid, f in children:
        _, status = os.waitpid(pid, 0)
        f.seek(0)
        out.append(pickle.load(f) if status == 0 else None)
        f.close()
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--workload")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 1)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args(argv)
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    t0 = time.time()

    import maxlike
    root = os.path.realpath(os.path.dirname(maxlike.__file__))
    if root != os.path.realpath(os.path.join(REPO, "maxlike")):
        print("error: maxlike imported from", root); return 2
    mod = importlib.import_module("mon." + a.prop.lower())
    stats = dict(events=collections.Counter(), known=collections.Counter())

    if a.replay:
        r = json.load(open(a.replay))
        fn = {w[0]: w[1] for w in mod.WORKLOADS}[r["workload"]]
        ctx, v = run_case(a.prop, r["workload"], fn, r["seed"], r["index"],
                          r["tier"], stats, 600)
        print("\n".join(ctx.desc)); print(v or "no violation")
        return 1 if v else 0

    budget = 540 if a.tier == "thorough" else 100   # wall clock cap, seconds
    limit = 200     # processor time of a case, seconds
    todo = [w for w in mod.WORKLOADS if not a.workload or w[0] == a.workload]
    total = {w[0]: max(1, int((w[3] if a.tier == "thorough" else w[2]) * a.scale))
             for w in todo}
    d = os.path.join(OUT, "replay")
    if os.path.isdir(d):
        for f in os.listdir(d):
            if f.startswith(a.prop + "-"):
                os.unlink(os.path.join(d, f))
    jobs = max(1, min(a.jobs, sum(total.values())))
    stop = multiprocessing.Event()

    def work(job):
        """the cases whose number is 'job' modulo the number of jobs"""
        st = dict(events=collections.Counter(), known=collections.Counter())
        r = dict(samples=[], seen=set(), evaluations=0, violations=[], capped=False,
                 done={w[0]: 0 for w in todo}, stats=st)
        # workloads are interleaved, so that the cap shortens all of them alike
        nxt = {w[0]: job for w in todo}
        while a.keep_going or not (r["violations"] or stop.is_set()):
            cand = [w for w in todo if nxt[w[0]] < total[w[0]]]
            if not cand:
                break
            if time.time() - t0 > budget:
                r["capped"] = True
                break
            w = min(cand, key=lambda w: nxt[w[0]] / total[w[0]])
            name, fn = w[0], w[1]
            index = nxt[name]
            nxt[name] += jobs
            r["done"][name] += 1
            t1 = time.process_time()
            ctx, v = run_case(a.prop, name, fn, a.seed, index, a.tier, st, limit)
            if time.process_time() - t1 > 8:
                st["events"]["slow case"] += 1
                if os.environ.get("MON_SLOW"):
                    print("slow", name, index, time.process_time() - t1, file=sys.stderr)
            r["evaluations"] += 1
            if not ctx.trivial:
                r["seen"].add(hashlib.sha1(
                    repr((name, ctx.signature, ctx.desc)).encode()).digest())
            if v is not None:
                path = write_replay(a.prop, a.seed, a.tier, name, index, v, ctx)
                r["violations"].append((name, index, v.kind, str(v)[:1500],
                                        [x[:300] for x in ctx.desc[-12:]], path))
                stop.set()
            elif ctx.desc and len([1 for x in r["samples"] if x["workload"] == name]) < 2:
                r["samples"].append(dict(workload=name, index=index,
                                         case=[x[:400] for x in ctx.desc[:12]]))
        return r

    if jobs == 1:
        results = [work(0)]
    else:
        results = fork_all(work, jobs)
    samples, seen, violations = [], set(), []
    evaluations = 0
    capped = False
    done = {w[0]: 0 for w in todo}
    for r in results:
        if r is None:
            stats["events"]["lost worker"] += 1
            continue
        samples += r["samples"]
        seen |= r["seen"]
        violations += r["violations"]
        evaluations += r["evaluations"]
        capped |= r["capped"]
        for k in ("events", "known"):
            stats[k].update(r["stats"][k])
        for k, n in r["done"].items():
            done[k] += n
    order = {w[0]: k for k, w in enumerate(todo)}
    samples = [x for w in todo for x in
               sorted((x for x in samples if x["workload"] == w[0]),
                      key=lambda x: x["index"])[:2]]
    violations.sort(key=lambda v: (order[v[0]], v[1]))
    kinds = collections.Counter((v[0], v[2]) for v in violations)
    shown = set()
    for name, index, kind, text, desc, path in violations:
        if (name, kind) in shown or (shown and not a.keep_going):
            continue
        shown.add((name, kind))
        print("workload %s case %d: %s" % (name, index, text))
        for line in desc:
            print("   ", line)
    violation = violations[0][5] if violations else None
    nontrivial = len(seen)
    ev = dict(
        property=a.prop, tier=a.tier if a.tier in ("quick", "thorough") else "quick",
        seed=a.seed, level="exploration",
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=nontrivial,
            rule=mod.RULE, samples=samples[:16],
            cases_per_workload=done, planned=total, stopped_by_time_cap=capped,
            observed=dict(sorted(stats["events"].items())),
            known_findings_met=dict(stats["known"])),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(OUT, exist_ok=True)
    tmp = os.path.join(OUT, a.prop + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(OUT, a.prop + ".json"))
    if violation is not None:
        print("VIOLATION property=%s replay=%s" % (a.prop, violation))
        for k, n in kinds.most_common():
            print("   ", k, n)
        return 1
    for key, text in known_findings(a.prop).items():
        if stats["known"][key]:
            print("KNOWN-FINDING: property=%s %s" % (a.prop, text))
        else:
            print("note: the recorded finding %s was not met" % key)
    judged = sum(n for k, n in stats["events"].items() if k.startswith("judged:"))
    bad = stats["events"]["watchdog"]
    if stats["events"]["lost worker"]:
        print("inconclusive: a worker of the monitor was lost")
        return 3
    print("%s: %d cases (%d distinct, non-trivial), %d judgements, %.1fs%s" % (
        a.prop, evaluations, nontrivial, judged, time.time() - t0,
        " (time cap)" if capped else ""))
    if judged == 0 or nontrivial == 0 or bad > 0.2 * evaluations:
        print("inconclusive: the monitors observed too little")
        return 3
    return 0
