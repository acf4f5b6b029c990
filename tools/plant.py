"""Verify planted bugs in scratch copies: `python3 tools/plant.py ID... [--checks C01,..|all|own]`.

For every /verif/seeded/ID: the patch applies to HEAD, touches original lines of source files
only, the stable tests pass, and the demonstration exits 0 without and non-zero with it. Then
the checks are run against the scratch copy (VERIF_REPO) and what they say is reported.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
BASE = "d3627b4"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
       "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "CUDA_VISIBLE_DEVICES": "", "JAX_PLATFORMS": "cpu", "TF_CPP_MIN_LOG_LEVEL": "3"}
ENV.pop("PYTHONPATH", None)


def sh(cmd, cwd, timeout=900, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           shell=isinstance(cmd, str))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def write(id, prop, edits, demo, needs, breaks):
    """Write /verif/seeded/`id`."""
    d = ROOT / "seeded" / id
    d.mkdir(parents=True, exist_ok=True)
    tmp = Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        sh(["git", "clone", "-q", "/repo", str(tmp / "repo")], "/")
        for file, old, new in edits:
            p = tmp / "repo" / file
            s = p.read_text()
            assert s.count(old) == 1, (id, file, old, s.count(old))
            p.write_text(s.replace(old, new))
        _, diff = sh(["git", "diff"], tmp / "repo")
    finally:
        shutil.rmtree(tmp)
    (d / "patch.diff").write_text(diff)
    (d / "demo.py").write_text(demo.strip("\n") + "\n")
    (d / "demo.sh").write_text(
        '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
        'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    (d / "meta.json").write_text(json.dumps(
        {"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")


def original_lines(repo, diff):
    """Whether all lines that a patch removes are of the original repository."""
    ok, n = True, 0
    file = None
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            file = line[6:]
        m = re.match(r"@@ -(\d+)", line)
        if m:
            at = int(m.group(1))
            continue
        if file and line.startswith("-") and not line.startswith("---"):
            _, out = sh(["git", "blame", "-l", "-s", "-L", f"{at},{at}", "HEAD", "--", file], repo)
            sha = out.split()[0].lstrip("^")
            rc, _ = sh(["git", "merge-base", "--is-ancestor", sha, BASE], repo)
            ok &= rc == 0
            n += 1
            at += 1
        elif file and line.startswith(" "):
            at += 1
    return ok, n


def verify(id, checks, tests=True):
    d = ROOT / "seeded" / id
    meta = json.loads((d / "meta.json").read_text())
    tmp = Path(tempfile.mkdtemp(prefix="plant-"))
    res = {"id": id, "property": meta["property"]}
    try:
        shutil.copytree("/repo", tmp / "repo", symlinks=True)
        repo = tmp / "repo"
        demo = tmp / "demo"
        demo.mkdir()
        for f in d.iterdir():
            if f.suffix not in {".diff", ".patch"} and f.name != "meta.json":
                shutil.copy(f, demo / f.name)
        res["clean_demo"] = sh(["bash", str(demo / "demo.sh")], repo, 300)[0]
        rc, out = sh(["git", "apply", str(d / "patch.diff")], repo)
        if rc:
            res["error"] = out
            return res
        res["original"], res["removed"] = original_lines("/repo", (d / "patch.diff").read_text())
        rc, out = sh(["bash", str(demo / "demo.sh")], repo, 300)
        res["bug_demo"] = rc
        res["bug_demo_out"] = out.strip().splitlines()[-1:][0:1]
        if tests:
            rc, out = sh("/opt/venv/bin/python -m pytest tests -q -n 4 -p no:cacheprovider "
                         "-p no:cov --timeout=300 -W ignore 2>&1 | tail -8", repo)
            m = re.search(r"(\d+) passed", out)
            res["passed"] = int(m.group(1)) if m else 0
            if "failed" in out:
                res["failed"] = [l for l in out.splitlines() if l.startswith("FAILED")]
        res["valid"] = (res["clean_demo"] == 0 and res["bug_demo"] != 0 and res["original"]
                        and (not tests or res["passed"] >= 93 and "failed" not in res))
        # A copy of the machinery, so that evidence is not mixed up.
        ver = tmp / "verif"
        shutil.copytree(ROOT, ver, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        res["checks"] = {}
        for c in checks or [meta["property"]]:
            rc, out = sh([str(ver / "check"), c], ver, 1200, {**ENV, "VERIF_REPO": str(repo)})
            res["checks"][c] = rc
            if rc == 1:
                res.setdefault("monitors", {})[c] = [
                    l.strip()[:160] for l in out.splitlines() if l.startswith("  ")][:3]
            elif rc != 0:
                res.setdefault("monitors", {})[c] = [out[-300:]]
        return res
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--out")
    a = ap.parse_args()
    ids = a.ids or sorted(p.name for p in (ROOT / "seeded").iterdir())
    checks = {"own": [], "all": [f"C{i:02d}" for i in range(1, 28)]}.get(
        a.checks, a.checks.split(","))
    with ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(lambda i: verify(i, checks, not a.no_tests), ids):
            line = json.dumps(r)
            print(line, flush=True)
            if a.out:
                with open(a.out, "a") as f:
                    f.write(line + "\n")
