#!/usr/bin/env python3
"""
Mutation campaign: small changes of /repo/maxlike that pass the test suite are
shown to the checks. Works in copies under /tmp only; nothing is registered in
MANIFEST.json.

    mutate.py list  OUT.jsonl            all the mutants
    mutate.py run   OUT.jsonl RES.jsonl [--jobs N] [--files a,b] [--every K]
"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
import threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
FILES = ["tensor/tensor.py", "func/func.py", "func/func_base.py", "func/func_op.py",
         "func/func_proba.py", "func/matrix.py", "func/copula.py", "func/sigmoid.py",
         "func/tennis.py", "maxlike_base.py", "maxlike.py", "skellam.py",
         "preprocessing.py"]
ONLY = {"tensor/tensor.py": "C01 C02 C03 C04 C05 C06 C07 C08",
        "func/func.py": "C05 C06 C07 C08 C09 C04", "func/func_base.py": "C05 C06 C07 C08 C04",
        "func/func_op.py": "C05 C06 C07 C08 C04", "func/func_proba.py": "C09 C06 C07 C08",
        "func/matrix.py": "C12 C10 C06 C07 C08", "func/copula.py": "C13 C04",
        "func/sigmoid.py": "C06 C07 C05 C08", "func/tennis.py": "C11 C06 C07 C08",
        "maxlike_base.py": "C19 C21 C18 C17 C22 C23 C20 C04 C27 C16",
        "maxlike.py": "C16 C17 C18 C23", "skellam.py": "C14 C15 C04",
        "preprocessing.py": "C24 C25 C26 C04"}

CMP = {ast.Lt: ["<=", ">="], ast.LtE: ["<", ">"], ast.Gt: [">=", "<="], ast.GtE: [">", "<"],
       ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"],
       ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/", "+"], ast.Div: ["*"],
       ast.FloorDiv: ["*"], ast.Mod: ["*"], ast.Pow: ["*"]}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.splitlines(keepends=True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()

    def pos(self, n):
        return (self.off[n.lineno - 1] + n.col_offset,
                self.off[n.end_lineno - 1] + n.end_col_offset)

    def seg(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, what):
        a, b = self.pos(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, what, n.lineno))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                self.add(n, "(%s %s %s)" % (l, o, r), "cmp")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        l, r = self.seg(n.left), self.seg(n.right)
        for o in BIN.get(type(n.op), []):
            self.add(n, "((%s) %s (%s))" % (l, o, r), "bin")
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            self.add(n, "(%s)" % l, "left")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, "(%s)" % self.seg(n.operand), "unary")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " and " if isinstance(n.op, ast.Or) else " or "
        self.add(n, "(" + o.join("(%s)" % self.seg(v) for v in n.values) + ")", "bool")
        for k in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != k]
            o2 = " or " if isinstance(n.op, ast.Or) else " and "
            self.add(n, "(" + o2.join("(%s)" % self.seg(v) for v in rest) + ")", "bool1")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, str(not v), "const")
        elif isinstance(v, int):
            self.add(n, "(%d)" % (v + 1), "const")
            if v:
                self.add(n, "(%d)" % (v - 1), "const")
        elif isinstance(v, float):
            self.add(n, "(%r)" % (v * 1.5 + .1), "const")

    def body(self, n):
        for st in n.body + getattr(n, "orelse", []) + getattr(n, "finalbody", []):
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise,
                               ast.Continue, ast.Break, ast.Return)):
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                    continue
                self.add(st, "pass", "del")

    def visit_FunctionDef(self, n):
        self.body(n)
        for d in n.args.defaults + n.args.kw_defaults:
            if d is not None:
                self.visit(d)
        for s in n.body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            self.visit(s)

    def visit_If(self, n):
        self.add(n.test, "(not (%s))" % self.seg(n.test), "if")
        self.add(n.test, "True", "if1")
        self.add(n.test, "False", "if0")
        self.body(n)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "(%s)" % self.seg(n.body), "ifexp")
        self.add(n, "(%s)" % self.seg(n.orelse), "ifexp")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        for t in n.ifs:
            self.add(t, "True", "compif")
        self.generic_visit(n)

    def visit_For(self, n):
        self.body(n); self.generic_visit(n)

    def visit_While(self, n):
        self.body(n); self.generic_visit(n)

    def visit_Try(self, n):
        self.body(n); self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        self.body(n); self.generic_visit(n)

    def visit_With(self, n):
        self.body(n); self.generic_visit(n)

    def visit_Call(self, n):
        f = self.seg(n.func)
        args = [self.seg(a) for a in n.args]
        kws = [(k.arg, self.seg(k.value)) for k in n.keywords]
        def render(a, k):
            return f + "(" + ", ".join(a + [("%s=%s" % x if x[0] else "**" + x[1]) for x in k]) + ")"
        for j in range(len(kws)):
            self.add(n, render(args, kws[:j] + kws[j + 1:]), "kw")
        if len(args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            self.add(n, render([args[1], args[0]] + args[2:], kws), "swap")
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "transpose", "swapaxes", "reshape"):
            self.add(n, "(%s)" % self.seg(n.func.value), "nocall")
        self.generic_visit(n)


def mutants():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, "maxlike", f)).read()
        g = Gen(src)
        g.visit(ast.parse(src))
        seen = set()
        for a, b, new, what, line in g.out:
            res = g.b[:a] + new.encode() + g.b[b:]
            try:
                tree = ast.dump(ast.parse(res.decode()))
            except SyntaxError:
                continue
            h = hash(tree)
            if h in seen or tree == ast.dump(ast.parse(src)):
                continue
            seen.add(h)
            out.append(dict(id="%s:%d:%d" % (f, line, len(out)), file=f, line=line, a=a, b=b,
                            old=g.b[a:b].decode(), new=new, what=what))
    return out


def sh(cmd, env, cwd, timeout):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, ""


def tests(d, env):
    return sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30",
               "-W", "ignore", "-o", "python_files=test_*.py *_test.py tests.py", "tests"],
              env, d, 180)[0] == 0


def judge(m, checks=None, seed="1"):
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        shutil.copytree(REPO + "/maxlike", d + "/maxlike",
                        ignore=shutil.ignore_patterns("__pycache__"))
        shutil.copytree(REPO + "/tests", d + "/tests",
                        ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(d, "maxlike", m["file"])
        b = open(p, "rb").read()
        assert b[m["a"]:m["b"]].decode() == m["old"]
        open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
        env = dict(os.environ, PYTHONPATH=d, PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1",
                   PYTHONDONTWRITEBYTECODE="1", MAXLIKE_REPO=d, MON_OUT=d + "/out")
        if not tests(d, env):
            return dict(m, result="tests")
        order = checks or ONLY[m["file"]].split()
        odd = []
        for c in order:
            rc, out = sh([sys.executable, "run_check.py", c, "--seed", seed, "--jobs", "1"],
                         env, HERE, 900)
            if rc == 1 and "VIOLATION property=" in out:
                return dict(m, result="caught", by=c, odd=odd,
                            how=out.splitlines()[0][:200])
            if rc != 0:
                odd.append((c, rc, out[-200:]))
        return dict(m, result="survived", odd=odd)
    finally:
        shutil.rmtree(d)


def main():
    cmd = sys.argv[1]
    if cmd == "list":
        ms = mutants()
        with open(sys.argv[2], "w") as f:
            for m in ms:
                f.write(json.dumps(m) + "\n")
        print(len(ms))
        return
    ms = [json.loads(l) for l in open(sys.argv[2])]
    opt = dict(zip(sys.argv[4::2], sys.argv[5::2]))
    if "--files" in opt:
        ms = [m for m in ms if m["file"] in opt["--files"].split(",")]
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {json.loads(l)["id"] for l in open(sys.argv[3])}
    ms = [m for m in ms if m["id"] not in done]
    random.Random(7).shuffle(ms)
    ms = ms[::int(opt.get("--every", 1))]
    checks = opt["--checks"].split(",") if "--checks" in opt else None
    lock = threading.Lock()
    with ThreadPoolExecutor(int(opt.get("--jobs", 7))) as ex, open(sys.argv[3], "a") as f:
        for fu in as_completed([ex.submit(judge, m, checks, opt.get("--seed", "1")) for m in ms]):
            with lock:
                f.write(json.dumps(fu.result()) + "\n"); f.flush()


main()
