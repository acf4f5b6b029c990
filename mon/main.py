"""Run the monitors of one property and write its evidence.

Exit 0: held on everything observed. Exit 1: a violation, with a VIOLATION line. Exit 2:
inconclusive (a monitor was not reached, a worker died, the time ran out).
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
from collections import Counter
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent


def load_known():
    """Known findings: lines `property=<id> key=<key> <what fails>`. Lines that start
    with `fixed:` suppress nothing."""
    known = {}
    path = ROOT / "known_findings.txt"
    if path.exists():
        for line in path.read_text().splitlines():
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            prop, key, text = line.split(" ", 2)
            known[(prop.split("=", 1)[1], key.split("=", 1)[1])] = text
    return known


def run_case(mod, case):
    from mon.core import Ctx, Skip, Violation, format_exc

    import numpy as np

    ctx = Ctx(case)
    seed = int(hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:8], 16)
    random.seed(seed)
    np.random.seed(seed)
    try:
        mod.run(case, ctx)
    except Skip:
        ctx.skipped += 1
    except Violation:
        pass
    except Exception as e:
        ctx.violate("no unexpected exception", exception=repr(e), where=format_exc())
    return ctx


def worker(modname, cases, counter, conn, deadline):
    from mon import repo

    out = []
    try:
        repo.setup()
        mod = importlib.import_module(modname)
        if hasattr(mod, "setup"):
            mod.setup()
        done = 0
        while True:
            # Cases are handed out one by one: which worker runs a case does not matter.
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(cases) or time.time() > deadline:
                break
            case = cases[i]
            c = run_case(mod, case)
            done += 1
            out.append(
                (case, c.events, c.sigs, c.violations, c.findings, c.sample, c.max_err,
                 c.skipped)
            )
            if sum(len(o[3]) for o in out) > 40:
                break
        conn.send(("ok", done, out))
    except BaseException as e:  # Report anything: the parent decides.
        from mon.core import format_exc

        conn.send(("error", repr(e), format_exc()))
    finally:
        conn.close()
        sys.stdout.flush()
        os._exit(0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    pid, t0 = args.property, time.time()
    modname = f"mon.checks.{pid.lower()}"

    sys.path.insert(0, str(ROOT))
    from mon import repo

    # Whatever goes wrong on import of the code under test is a property of that code,
    # but it says nothing about this property: inconclusive.
    mod = None
    try:
        repo.setup()
        mod = importlib.import_module(modname)
    except Exception:
        import traceback

        traceback.print_exc()
        print(f"INCONCLUSIVE property={pid} could not import")
        return 2

    if args.replay:
        data = json.loads(Path(args.replay).read_text())
        if hasattr(mod, "setup"):
            mod.setup()
        ctx = run_case(mod, data["case"])
        print(json.dumps(ctx.violations, indent=1, default=str))
        for f in ctx.findings:
            print("finding", f)
        return 1 if ctx.violations else 0

    cases = mod.cases(tier, args.seed)
    # For development only: every n-th case.
    every = int(os.environ.get("VERIF_EVERY", "1"))
    cases = cases[::every]
    # A fixed set of cases that does not depend on timing. The watchdog is generous and
    # running into it is recorded.
    limit = getattr(mod, "LIMIT", {}).get(tier, 600 if tier == "quick" else 7200)
    deadline = t0 + limit
    jobs = max(1, min(args.jobs, getattr(mod, "JOBS", 8), len(cases)))
    ctxmp = mp.get_context("fork")
    counter = ctxmp.Value("i", 0)
    procs = []
    for _ in range(jobs):
        a, b = ctxmp.Pipe(duplex=False)
        p = ctxmp.Process(target=worker, args=(modname, cases, counter, b, deadline))
        p.start()
        b.close()
        procs.append((p, a))

    results = []
    events, sigs = Counter(), set()
    violations, findings, samples, errors = [], {}, [], []
    done = skipped = 0
    max_err = 0.0
    for p, conn in procs:
        try:
            if conn.poll(max(1, deadline + 120 - time.time())):
                msg = conn.recv()
            else:
                msg = ("error", "worker timed out", "")
        except EOFError:
            msg = ("error", "worker died", "")
        if msg[0] == "ok":
            done += msg[1]
            results += msg[2]
        else:
            errors.append(msg[1] + "\n" + msg[2])
        p.join(5)
        if p.is_alive():
            p.kill()

    results.sort(key=lambda r: json.dumps(r[0], sort_keys=True))
    for case, ev, sg, vs, fs, sample, me, sk in results:
        events.update(ev)
        sigs |= sg
        violations += vs
        for key, text in fs:
            findings.setdefault(key, []).append((text, case))
        if sample is not None and len(samples) < 4:
            samples.append(sample)
        max_err = max(max_err, me)
        skipped += sk
    if not samples:
        samples = [{"case": r[0], "events": dict(r[1])} for r in results[:3]]

    known = load_known()
    notes = []
    for key, items in sorted(findings.items()):
        text = known.get((pid, key))
        if text is None:
            text0, case = items[0]
            violations.append(
                {"monitor": "finding:" + key, "case": case, "info": {"what": text0},
                 "trace": []}
            )
        else:
            notes.append(f"KNOWN-FINDING: property={pid} {text} [{key}]")

    required = dict(getattr(mod, "REQUIRED", {}))
    unmet = {k: (events.get(k, 0), v) for k, v in required.items() if events.get(k, 0) < v}
    truncated = len(cases) - done

    replay_dir = ROOT / "evidence" / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    for old in replay_dir.glob(f"{pid}-*.json"):
        old.unlink()
    paths = []
    seen = set()
    for v in violations:
        if v["monitor"] in seen or len(paths) >= 5:
            continue
        seen.add(v["monitor"])
        path = replay_dir / f"{pid}-{len(paths)}.json"
        path.write_text(
            json.dumps(
                {"property": pid, "tier": tier, "seed": args.seed, **v},
                indent=1,
                default=str,
            )
        )
        paths.append((path, v))

    trim = lambda s: s if len(json.dumps(s, default=str)) < 6000 else str(s)[:6000]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": [trim(s) for s in samples],
            "observed": {k: events[k] for k in sorted(events)},
            "monitor_judgements": sum(
                v for k, v in events.items() if k.startswith("judged:")
            ),
            "outside_domain": skipped,
            "planned": len(cases),
            "not_run_watchdog": truncated,
            "largest_error_relative_to_tolerance": round(max_err, 6),
            "known_findings_observed": sorted(findings),
            "worker_errors": [e[:500] for e in errors],
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{pid}.json").write_text(
        json.dumps(evidence, indent=1, default=str) + "\n"
    )

    for line in notes:
        print(line)
    print(
        f"{pid} {tier} seed={args.seed}: {done}/{len(cases)} cases, {skipped} outside "
        f"domain, {len(sigs)} distinct, "
        f"{evidence['coverage']['monitor_judgements']} judgements, "
        f"max err/tol {max_err:.3g}, {evidence['wall_s']} s"
    )
    if violations:
        for path, v in paths:
            print(f"  {v['monitor']}: {json.dumps(v['info'], default=str)[:700]}")
        for path, v in paths[:1]:
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        print("\n".join(errors)[:4000])
        print(f"INCONCLUSIVE property={pid} a worker failed")
        return 2
    if unmet and every == 1:
        print(f"INCONCLUSIVE property={pid} monitors not reached: {unmet}")
        return 2
    if truncated > 0.5 * len(cases):
        print(f"INCONCLUSIVE property={pid} watchdog: {truncated} cases not run")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
