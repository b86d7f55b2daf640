#!/opt/venv/bin/python
"""Automatic mutants of /repo/pypfopt: which survive the stable tests, and which of those the checks miss.

mutate.py gen OUT.json [--seed N] [--per-file N]    list mutants
mutate.py tests IN.json OUT.json                    keep those that pass the stable tests (scratch copies below /tmp/mut)
mutate.py checks IN.json OUT.json [--soft S]        run the properties of the mutated file, stop at the first violation
A development aid: nothing registered in MANIFEST.json uses it.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, PY, TMP = "/repo", "/opt/venv/bin/python", "/tmp/mut"
UNSTABLE = "tests/test_efficient_semivariance.py::test_min_semivariance"
TESTS = {
    "base_optimizer.py": ["test_base_optimizer.py", "test_efficient_frontier.py", "test_custom_objectives.py", "test_imports.py"],
    "black_litterman.py": ["test_black_litterman.py"], "cla.py": ["test_cla.py"],
    "discrete_allocation.py": ["test_discrete_allocation.py"], "expected_returns.py": ["test_expected_returns.py"],
    "hierarchical_portfolio.py": ["test_hrp.py"], "objective_functions.py": ["test_objective_functions.py", "test_custom_objectives.py"],
    "plotting.py": ["test_plotting.py"], "risk_models.py": ["test_risk_models.py"],
    "efficient_frontier/efficient_frontier.py": ["test_efficient_frontier.py"],
    "efficient_frontier/efficient_semivariance.py": ["test_efficient_semivariance.py"],
    "efficient_frontier/efficient_cvar.py": ["test_efficient_cvar.py"],
    "efficient_frontier/efficient_cdar.py": ["test_efficient_cdar.py"],
}
PROPS = {
    "base_optimizer.py": "M05 S05 P01 S02 S01 M01 G04 S04 X01 I01 P03 I02 L01 M02 M03",
    "black_litterman.py": "B01 B02 B03 B04 I01 P03 I02 P01 S03", "cla.py": "O01 O02 I01 P01 I02 M01 S03 L01",
    "discrete_allocation.py": "D01 D02 D03 I01 P03 X01 S03 I02", "expected_returns.py": "E01 E02 P03 I01 I02 S03 L01",
    "hierarchical_portfolio.py": "O03 I01 P01 I02 P03", "objective_functions.py": "P02 G04 M02 P01 I01 S03",
    "plotting.py": "V01 I01 S03 P03", "risk_models.py": "R01 R02 R03 R04 P03 I01 E02 I02 L01 S03",
    "efficient_frontier/efficient_frontier.py": "M02 M03 M04 S01 S02 M01 P01 I01 P03 X01 I02 S04 G04 L01",
    "efficient_frontier/efficient_semivariance.py": "G01 M04 S01 P03 I01 S02 X01 I02 M01 P01",
    "efficient_frontier/efficient_cvar.py": "G02 M04 S01 P03 I01 S02 X01 I02 M01 P01",
    "efficient_frontier/efficient_cdar.py": "G03 M04 S01 P03 I01 S02 X01 I02 M01 P01",
}


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.lines, self.out, self.depth = src, src.split("\n"), [], []
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.b = src.encode()

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def add(self, n, new, what):
        a, b = self.pos(n)
        self.out.append((a, b, new, what, n.lineno))

    def seg(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def visit_FunctionDef(self, n):
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str):
            n.body = n.body[1:]
        self.generic_visit(n)

    visit_ClassDef = visit_FunctionDef
    visit_Module = visit_FunctionDef

    def visit_Compare(self, n):
        ops = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
        alt = {"<": ["<=", ">"], "<=": ["<", ">="], ">": [">=", "<"], ">=": [">", "<="], "==": ["!="], "!=": ["=="], "is": ["is not"], "is not": ["is"], "in": ["not in"], "not in": ["in"]}
        if len(n.ops) == 1:
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            o = ops[type(n.ops[0])]
            for x in alt[o]:
                self.add(n, "%s %s %s" % (l, x, r), "cmp %s->%s" % (o, x))
        self.generic_visit(n)

    def visit_BinOp(self, n):
        ops = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]), ast.Pow: ("**", ["*"]), ast.FloorDiv: ("//", ["/"])}
        if type(n.op) in ops and not isinstance(n.left, (ast.Constant,)) or type(n.op) in ops and not isinstance(getattr(n.left, "value", 0), str):
            o, alts = ops[type(n.op)]
            for x in alts:
                self.add(n, "(%s) %s (%s)" % (self.seg(n.left), x, self.seg(n.right)), "bin %s->%s" % (o, x))
            if o in "+-*/":
                self.add(n, self.seg(n.left), "bin keep left")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o, x = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
        self.add(n, (" %s " % x).join("(%s)" % self.seg(v) for v in n.values), "bool %s->%s" % (o, x))
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            self.add(n, "(" + (" %s " % o).join("(%s)" % self.seg(v) for v in rest) + ")", "bool drop %d" % i)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, "(%s)" % self.seg(n.operand), "drop unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if v is True or v is False:
            self.add(n, str(not v), "const flip")
        elif isinstance(v, int):
            self.add(n, str(v + 1), "const+1")
        elif isinstance(v, float):
            self.add(n, repr(v * 10 if v else 0.1), "const*10")
        elif v is None:
            pass

    def visit_JoinedStr(self, n):
        pass

    def visit_If(self, n):
        self.add(n.test, "not (%s)" % self.seg(n.test), "if negate")
        self.add(n.test, "True", "if True")
        self.add(n.test, "False", "if False")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, self.seg(n.body), "ifexp body")
        self.add(n, self.seg(n.orelse), "ifexp orelse")
        self.generic_visit(n)

    def visit_Expr(self, n):
        self.add(n, "pass", "drop call")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.add(n, "pass", "drop raise")

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.add(n, "pass", "drop assign")
        elif isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call):
            for sub in n.value.args[:1]:
                if isinstance(sub, ast.Name) and sub.id == n.targets[0].id:
                    self.add(n, "pass", "drop assign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, "pass", "drop augassign")
        self.generic_visit(n)

    def visit_Call(self, n):
        if n.keywords and not (isinstance(n.func, ast.Attribute) and n.func.attr == "warn"):
            for k in n.keywords:
                if k.arg is None:
                    continue
                parts = [self.seg(a) for a in n.args] + [("**" if q.arg is None else q.arg + "=") + self.seg(q.value) for q in n.keywords if q is not k]
                self.add(n, "%s(%s)" % (self.seg(n.func), ", ".join(parts)), "drop kw %s" % k.arg)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "abs", "dropna", "fillna", "sort_values", "sort_index"):
            self.add(n, self.seg(n.func.value), "drop .%s()" % n.func.attr)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("abs", "array", "asarray", "sort", "sqrt", "round") and n.args:
            self.add(n, "(%s)" % self.seg(n.args[0]), "drop %s()" % n.func.attr)
        swap = {"min": "max", "max": "min", "any": "all", "all": "any", "fmin": "minimum", "nanmean": "mean", "mean": "median", "argmin": "argmax", "argmax": "argmin"}
        if isinstance(n.func, ast.Attribute) and n.func.attr in swap:
            a, b = self.pos(n.func)
            self.out.append((b - len(n.func.attr), b, swap[n.func.attr], "call %s" % n.func.attr, n.lineno))
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)


def gen(args):
    rnd = random.Random(args.seed)
    ms = []
    for f in TESTS:
        src = open(os.path.join(REPO, "pypfopt", f)).read()
        v = Finder(src)
        v.visit(ast.parse(src))
        seen = set()
        out = []
        for a, b, new, what, line in v.out:
            m = v.b[:a] + new.encode() + v.b[b:]
            if m in seen or m == v.b:
                continue
            seen.add(m)
            try:
                compile(m, f, "exec")
            except SyntaxError:
                continue
            out.append(dict(file=f, a=a, b=b, new=new, what=what, line=line, old=v.b[a:b].decode()))
        if args.per_file and len(out) > args.per_file:
            out = rnd.sample(out, args.per_file)
        print(f, len(out))
        ms += out
    for i, m in enumerate(ms):
        m["id"] = i
    json.dump(ms, open(args.out, "w"), indent=0)


def worker_pool(n, name):
    q = queue.Queue()
    for i in range(n):
        d = os.path.join(TMP, "%s%d" % (name, i))
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", REPO, d], check=True)
        shutil.rmtree(os.path.join(d, ".git"), ignore_errors=True)
        q.put(d)
    return q


def with_mutant(q, m, fn):
    d = q.get()
    p = os.path.join(d, "pypfopt", m["file"])
    b = open(os.path.join(REPO, "pypfopt", m["file"]), "rb").read()
    try:
        open(p, "wb").write(b[:m["a"]] + m["new"].encode() + b[m["b"]:])
        return fn(d)
    finally:
        open(p, "wb").write(b)
        q.put(d)


def pytest(d, files, n=0):
    env = dict(os.environ, PYTHONPATH=d + ":/opt/vp/plugins", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    cmd = [PY, "-m", "pytest", "-q", "-x", "-p", "osqp_fixed_interval", "-p", "no:cacheprovider", "--timeout=60", "--deselect", UNSTABLE]
    if n:
        cmd += ["-n", str(n)]
    try:
        return subprocess.run(cmd + [os.path.join("tests", f) for f in files], cwd=d, env=env, capture_output=True, timeout=400).returncode
    except subprocess.TimeoutExpired:
        return 99


def tests(args):
    ms = json.load(open(args.inp))
    q = worker_pool(args.jobs, args.cmd)
    alive, done = [], [0]

    def one(m):
        def fn(d):
            if pytest(d, TESTS[m["file"]]) != 0:
                return False
            return pytest(d, [""]) == 0
        ok = with_mutant(q, m, fn)
        done[0] += 1
        if ok:
            alive.append(m)
            json.dump(alive, open(args.out, "w"), indent=0)
        if done[0] % 25 == 0:
            print(done[0], "of", len(ms), "alive", len(alive), flush=True)

    with ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(one, ms))
    print("alive", len(alive), "of", len(ms))


def checks(args):
    ms = json.load(open(args.inp))
    done = {}
    if os.path.exists(args.out):
        done = {m["id"]: m for m in json.load(open(args.out))}
    q = worker_pool(args.jobs, args.cmd)
    res = list(done.values())

    def one(m):
        if m["id"] in done:
            return

        def fn(d):
            for p in PROPS[m["file"]].split():
                env = dict(os.environ, PVMON_REPO=d, PVMON_SOFT_S=str(args.soft), PYTHONDONTWRITEBYTECODE="1", PVMON_EVIDENCE="/tmp/mut/ev")
                try:
                    r = subprocess.run(["./check", p, "--seed", "1"], cwd=args.verif, env=env, capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    continue
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if r.returncode == 1 and v:
                    return p, v[0][:160]
            return None
        m["caught"] = with_mutant(q, m, fn)
        res.append(m)
        json.dump(res, open(args.out, "w"), indent=0)
        print(m["id"], m["file"], m["line"], m["what"], "|", m["old"][:60].replace("\n", " "), "=>", m["new"][:60].replace("\n", " "), "::", m["caught"], flush=True)

    with ThreadPoolExecutor(args.jobs) as ex:
        list(ex.map(one, ms))
    print("missed", sum(1 for m in res if not m["caught"]), "of", len(res))


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    sp = ap.add_subparsers(dest="cmd")
    g = sp.add_parser("gen"); g.add_argument("out"); g.add_argument("--seed", type=int, default=0); g.add_argument("--per-file", type=int, default=0)
    t = sp.add_parser("tests"); t.add_argument("inp"); t.add_argument("out"); t.add_argument("--jobs", type=int, default=7)
    c = sp.add_parser("checks"); c.add_argument("inp"); c.add_argument("out"); c.add_argument("--jobs", type=int, default=2)
    c.add_argument("--soft", type=float, default=8); c.add_argument("--verif", default=VERIF)
    a = ap.parse_args()
    {"gen": gen, "tests": tests, "checks": checks}[a.cmd](a)
