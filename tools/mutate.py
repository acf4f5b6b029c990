"""Systematic mutants, to find gaps: `python3 tools/mutate.py list|tests|checks OUT [--n N]`.

`list` writes mutants (one JSON per line) to OUT/mutants.jsonl; `tests` runs the repository's
tests on every mutant and writes survivors to OUT/tests.jsonl; `checks` runs the checks on the
survivors, relevant ones first, until one detects the mutant, and writes OUT/checks.jsonl.
A development tool: nothing registered in MANIFEST.json uses it.
"""
import argparse
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
FILES = ["stheno/lazy.py", "stheno/random.py", "stheno/mo/adk.py", "stheno/mo/infer.py",
         "stheno/mo/input.py", "stheno/mo/kernel.py", "stheno/mo/mean.py",
         "stheno/model/fdd.py", "stheno/model/gp.py", "stheno/model/measure.py",
         "stheno/model/observations.py"]
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
       "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": "",
       "JAX_PLATFORMS": "cpu", "TF_CPP_MIN_LOG_LEVEL": "3"}


def offsets(src):
    out, n = [0], 0
    for line in src.splitlines(True):
        n += len(line)
        out.append(n)
    return out


def span(node, off):
    return (off[node.lineno - 1] + node.col_offset,
            off[node.end_lineno - 1] + node.end_col_offset)


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.off, self.out = src, offsets(src), []
        self.args = []
        self.func = []

    def edit(self, node, new, op):
        a, b = span(node, self.off)
        if isinstance(new, ast.AST):
            new = ast.unparse(ast.fix_missing_locations(new))
        if isinstance(node, ast.expr) and not isinstance(node, (ast.Name, ast.Constant)):
            new = f"({new})" if op not in ("index", "swap-args", "drop-kw", "drop-arg") else new
        old = self.src[a:b]
        if old != new:
            self.out.append(dict(line=node.lineno, op=op, a=a, b=b, old=old, new=new,
                                 func=".".join(self.func)))

    def visit_FunctionDef(self, n):
        names = [a.arg for a in n.args.args + n.args.kwonlyargs if a.arg != "self"]
        if n.args.vararg:
            names.append(n.args.vararg.arg)
        # Assigned names count too.
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in names:
                names.append(x.id)
        self.args.append(names)
        self.func.append(n.name)
        for s in n.body:
            self.visit(s)
        self.args.pop()
        self.func.pop()

    def visit_ClassDef(self, n):
        self.func.append(n.name)
        for s in n.body:
            self.visit(s)
        self.func.pop()

    def visit_Lambda(self, n):
        self.args.append([a.arg for a in n.args.args] + (self.args[-1] if self.args else []))
        self.visit(n.body)
        self.args.pop()

    def visit_If(self, n):
        self.edit(n.test, ast.UnaryOp(ast.Not(), n.test), "negate")
        self.edit(n.test, ast.Constant(False), "never")
        self.edit(n.test, ast.Constant(True), "always")
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.edit(n, n.body, "if-body")
        self.edit(n, n.orelse, "if-else")
        self.generic_visit(n)

    def visit_Compare(self, n):
        swap = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
                ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.Eq, ast.IsNot: ast.NotEq,
                ast.In: ast.NotIn, ast.NotIn: ast.In}
        m = copy.deepcopy(n)
        m.ops[0] = swap[type(m.ops[0])]()
        self.edit(n, m, "compare")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        self.edit(n, m, "bool")
        for v in n.values:
            self.edit(n, v, "bool-one")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
                ast.Pow: ast.Mult}
        if type(n.op) in swap:
            m = copy.deepcopy(n)
            m.op = swap[type(n.op)]()
            self.edit(n, m, "binop")
        self.edit(n, n.left, "left")
        self.edit(n, n.right, "right")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.edit(n, n.operand, "unary")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.edit(n, str(not n.value), "const")
        elif isinstance(n.value, (int, float)):
            self.edit(n, str(n.value + 1), "const")
            if n.value not in (0, 1):
                self.edit(n, "1", "const")
        elif n.value is None:
            self.edit(n, "0", "const")

    def visit_Call(self, n):
        fixed = [i for i, a in enumerate(n.args) if not isinstance(a, ast.Starred)]
        for i, j in zip(fixed, fixed[1:]):
            m = copy.deepcopy(n)
            m.args[i], m.args[j] = m.args[j], m.args[i]
            self.edit(n, m, "swap-args")
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n)
            del m.keywords[i]
            self.edit(n, m, "drop-kw")
        if len(n.args) > 1:
            m = copy.deepcopy(n)
            del m.args[-1]
            self.edit(n, m, "drop-arg")
        if len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            self.edit(n, n.args[0], "unwrap")
        alt = {"any": "all", "all": "any", "sum": "mean", "matmul": "multiply",
               "add": "subtract", "subtract": "add", "multiply": "divide",
               "divide": "multiply", "min": "max", "max": "min"}
        f = n.func
        name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
        if name in alt and isinstance(f, ast.Attribute):
            m = copy.deepcopy(n)
            m.func.attr = alt[name]
            self.edit(n, m, "function")
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            m = copy.deepcopy(n)
            m.slice.elts.reverse()
            self.edit(n, m, "index")
        if isinstance(n.slice, ast.Slice):
            for part in ("lower", "upper"):
                if getattr(n.slice, part) is not None:
                    m = copy.deepcopy(n)
                    setattr(m.slice, part, None)
                    self.edit(n, m, "index")
        self.generic_visit(n)

    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Load) or not self.args:
            return
        names = self.args[-1]
        if n.id in names:
            others = [a for a in names if a != n.id]
            close = sorted(others, key=lambda a: (a[0] != n.id[0], abs(len(a) - len(n.id))))
            for a in close[:2]:
                self.edit(n, a, "variable")

    def visit_Attribute(self, n):
        self.generic_visit(n)

    def statements(self, body):
        for s in body:
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Assert, ast.Raise)):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                self.edit(s, "pass", "delete")

    def visit(self, n):
        body = getattr(n, "body", None)
        if isinstance(body, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
            self.statements(body)
            self.statements(getattr(n, "orelse", []) if isinstance(
                getattr(n, "orelse", []), list) else [])
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, (ast.JoinedStr, ast.Import, ast.ImportFrom)):
            return
        super().visit(n)


def generate(files=FILES):
    out, seen = [], set()
    for f in files:
        src = (REPO / f).read_text()
        g = Gen(src)
        for s in ast.parse(src).body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                g.visit(s)
        for m in g.out:
            new = src[:m["a"]] + m["new"] + src[m["b"]:]
            try:
                tree = ast.dump(ast.parse(new))
            except SyntaxError:
                continue
            if tree == ast.dump(ast.parse(src)) or (f, tree) in seen:
                continue
            seen.add((f, tree))
            out.append({"file": f, **m})
    for i, m in enumerate(out):
        m["id"] = f"m{i:04d}"
    return out


def scratch(m, base):
    d = Path(tempfile.mkdtemp(prefix="mut-", dir=base))
    shutil.copytree(REPO / "stheno", d / "stheno", ignore=shutil.ignore_patterns("__pycache__"))
    p = d / m["file"]
    s = p.read_text()
    assert s[m["a"]:m["b"]] == m["old"]
    p.write_text(s[:m["a"]] + m["new"] + s[m["b"]:])
    return d


ORDER = ["tests/test_lazy.py", "tests/mo", "tests/model/test_fdd.py", "tests/model/test_gp.py",
         "tests/model/test_measure.py", "tests/test_random.py"]


def run_tests(muts, out, jobs):
    """A fork server with the heavy imports done once."""
    sys.path.insert(0, "/repo")
    import warnings

    warnings.simplefilter("ignore")
    import autograd, jax, lab.autograd, lab.jax, lab.tensorflow, lab.torch, mlkernels  # noqa
    import mlkernels.tensorflow, mlkernels.torch, mlkernels.jax, mlkernels.autograd  # noqa
    import numpy, plum, pytest, scipy.stats, tensorflow, torch  # noqa

    torch.set_num_threads(1)
    assert "stheno" not in sys.modules
    running = {}
    todo = list(muts)
    f = open(out, "a")
    base = tempfile.mkdtemp(prefix="muts-")
    try:
        while todo or running:
            while todo and len(running) < jobs:
                m = todo.pop()
                d = scratch(m, base)
                shutil.copytree(REPO / "tests", d / "tests",
                                ignore=shutil.ignore_patterns("__pycache__"))
                pid = os.fork()
                if pid == 0:
                    os.setpgid(0, 0)
                    fd = os.open(d / "log", os.O_WRONLY | os.O_CREAT)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    os.chdir(d)
                    sys.path[:] = [str(d)] + [p for p in sys.path if p != "/repo"]
                    sys.dont_write_bytecode = True
                    have = [o for o in ORDER if (d / o).exists()]
                    rest = sorted(str(p.relative_to(d)) for p in (d / "tests").rglob("test_*.py"))
                    rc = pytest.main(["-x", "-q", "-p", "no:cacheprovider", "-p", "no:cov",
                                      "-p", "no:xdist", "-W", "ignore", "--timeout=120",
                                      "--rootdir", str(d)] + have
                                     + [r for r in rest
                                        if not any(r == h or r.startswith(h + "/") for h in have)])
                    os._exit(int(rc))
                running[pid] = (m, d, time.time())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.2)
                for p, (m, d, t) in list(running.items()):
                    if time.time() - t > 400:
                        os.killpg(p, 9)
                continue
            if pid not in running:
                continue
            m, d, t = running.pop(pid)
            rc = os.waitstatus_to_exitcode(st)
            log = (d / "log").read_text()[-300:] if (d / "log").exists() else ""
            f.write(json.dumps({**m, "rc": rc, "t": round(time.time() - t, 1),
                                "log": log if rc not in (1,) else log[-120:]}) + "\n")
            f.flush()
            shutil.rmtree(d)
    finally:
        shutil.rmtree(base, ignore_errors=True)


RELEVANT = {
    "stheno/lazy.py": "C18 C01 C11 C03 C22",
    "stheno/random.py": "C09 C10 C07 C17 C25 C08 C15 C16 C22 C24 C20",
    "stheno/mo/adk.py": "C23 C14",
    "stheno/mo/infer.py": "C14 C22 C15 C19",
    "stheno/mo/input.py": "C14 C22",
    "stheno/mo/kernel.py": "C14 C20 C22 C23 C17",
    "stheno/mo/mean.py": "C14 C10 C22 C17",
    "stheno/model/fdd.py": "C24 C15 C10 C20 C03 C25 C27 C16 C17 C22 C14",
    "stheno/model/gp.py": "C01 C12 C11 C13 C22 C19 C23 C14",
    "stheno/model/measure.py": "C01 C11 C13 C12 C21 C03 C14 C07 C08 C22 C06 C23",
    "stheno/model/observations.py": "C05 C06 C03 C15 C17 C20 C04 C07 C22 C24 C25 C11 C16",
}


def run_checks(muts, out, jobs, budget=240):
    """A fork server again: cases one by one until one detects the mutant."""
    import random as _random
    import warnings

    warnings.simplefilter("ignore")
    sys.path.insert(0, str(ROOT))
    # Not TensorFlow and JAX: their threads do not survive a fork.
    import lab, matrix, mlkernels, numpy, plum, scipy.stats  # noqa

    assert "stheno" not in sys.modules
    base = tempfile.mkdtemp(prefix="muts-")
    running, todo, f = {}, list(muts), open(out, "a")

    def child(m, d):
        os.environ["VERIF_REPO"] = str(d)
        sys.path[:] = [p for p in sys.path if p != "/repo"]
        sys.dont_write_bytecode = True
        from mon import repo
        from mon.main import load_known, run_case
        import importlib

        known, t0 = load_known(), time.time()
        res = {**m, "caught": None, "ran": {}}
        try:
            repo.setup()
            mods = {}
            queue = []
            for k, c in enumerate(RELEVANT[m["file"]].split()):
                mod = mods[c] = importlib.import_module(f"mon.checks.{c.lower()}")
                if hasattr(mod, "setup"):
                    mod.setup()
                cases = mod.cases("quick", 1)
                _random.Random(0).shuffle(cases)
                queue.append((c, mod, cases))
            # A slice of time for every check, then again until the budget is spent.
            while time.time() - t0 < budget and any(q[2] for q in queue):
                for c, mod, cases in queue:
                    t = time.time()
                    while cases and time.time() - t < 8:
                        ctx = run_case(mod, cases.pop())
                        res["ran"][c] = res["ran"].get(c, 0) + 1
                        bad = ctx.violations or [k for k in ctx.findings
                                                 if (c, k[0]) not in known]
                        if bad:
                            res["caught"] = c
                            v = ctx.violations[:1]
                            res["how"] = str(v and (v[0]["monitor"], v[0]["info"]))[:300]
                            return res
        except BaseException as e:
            res["error"] = repr(e)[:300]
        res["t"] = round(time.time() - t0)
        return res

    try:
        while todo or running:
            while todo and len(running) < jobs:
                m = todo.pop(0)
                d = scratch(m, base)
                pid = os.fork()
                if pid == 0:
                    fd = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    (d / "res").write_text(json.dumps(child(m, d)))
                    os._exit(0)
                running[pid] = (m, d, time.time())
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.2)
                for p, (m, d, t) in list(running.items()):
                    if time.time() - t > budget + 200:
                        os.kill(p, 9)
                continue
            m, d, t = running.pop(pid)
            f.write(((d / "res").read_text() if (d / "res").exists()
                     else json.dumps({**m, "caught": "died", "ran": {}})) + "\n")
            f.flush()
            shutil.rmtree(d)
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("out")
    ap.add_argument("--n", type=int)
    ap.add_argument("--skip", default="")
    ap.add_argument("--jobs", type=int, default=6)
    a = ap.parse_args()
    out = Path(a.out)
    out.mkdir(parents=True, exist_ok=True)
    os.environ.update(ENV)
    if a.what == "list":
        ms = generate()
        (out / "mutants.jsonl").write_text("".join(json.dumps(m) + "\n" for m in ms))
        print(len(ms))
    elif a.what == "tests":
        ms = [json.loads(l) for l in open(out / "mutants.jsonl")]
        done = set()
        if (out / "tests.jsonl").exists():
            done = {json.loads(l)["id"] for l in open(out / "tests.jsonl")}
        ms = [m for m in ms if m["id"] not in done]
        random.Random(0).shuffle(ms)
        run_tests(ms[:a.n], out / "tests.jsonl", a.jobs)
    else:
        ms = [json.loads(l) for l in open(out / "tests.jsonl")]
        ms = [m for m in ms if m["rc"] == 0 and m["id"] not in a.skip.split(",")]
        done = set()
        if (out / "checks.jsonl").exists():
            done = {json.loads(l)["id"] for l in open(out / "checks.jsonl")}
        ms = [m for m in ms if m["id"] not in done]
        run_checks(ms[:a.n], out / "checks.jsonl", a.jobs)
