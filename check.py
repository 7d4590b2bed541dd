#!/usr/bin/env python3
"""Runs the monitors of one property against the code in /repo.

    python3 check.py C01              quick or thorough, see VERIF_TIER / VERIF_SEED
    python3 check.py C01 --replay F   repeat the case recorded in a replay file

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: inconclusive, the deciding monitor did not observe what it needs.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CLUBS_REPO", "/repo")
PYTHON = os.environ.get("CLUBS_PYTHON", "/opt/pypyvenv/bin/python")
WATCHDOG = {"quick": 600, "thorough": 850}


def environment(scratch):
    env = dict(os.environ)
    env.update(
        PYTHONPATH=f"{REPO}:{HERE}",
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONUNBUFFERED="1",
        CLUBS_REPO=REPO,
        CLUBS_SCRATCH=scratch,
        NO_PROXY="*",
        no_proxy="*",
    )
    return env


def run_workers(prop, tier, seed, scratch, only=None):
    """Runs the shards of one property, returns their results."""
    import mon.plan as plan

    shards = 1 if only is not None else plan.shards(prop, tier)
    procs = []
    for shard in range(shards):
        out = os.path.join(scratch, f"out.{shard}.json")
        cmd = [PYTHON, "-m", "mon.worker", prop, tier, str(seed), str(shard),
               str(shards), out]
        if only is not None:
            cmd.append(str(only))
        err = open(os.path.join(scratch, f"err.{shard}"), "w")
        procs.append((subprocess.Popen(
            cmd, cwd=scratch, env=environment(scratch), stdin=subprocess.DEVNULL,
            stdout=err, stderr=err, start_new_session=True), out, err))
    deadline = time.time() + WATCHDOG[tier]
    results, errors = [], []
    for shard, (proc, out, err) in enumerate(procs):
        try:
            code = proc.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            code = "watchdog"
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()
        err.close()
        if os.path.exists(out):
            with open(out) as file:
                results.append(json.load(file))
        else:
            with open(err.name) as file:
                errors.append(f"shard {shard} ended with {code}: {file.read()[-1500:]}")
    return results, errors


def merge(results):
    total = {"evaluations": 0, "counters": {}, "maxima": {}, "samples": [],
             "distinct": set(), "violations": [], "known": {}, "capped": False,
             "inconclusive": []}
    for res in results:
        total["evaluations"] += res["evaluations"]
        for name, value in res["counters"].items():
            total["counters"][name] = total["counters"].get(name, 0) + value
        for name, value in res["maxima"].items():
            total["maxima"][name] = max(total["maxima"].get(name, value), value)
        total["samples"] += res["samples"]
        total["distinct"].update(res["distinct"])
        total["violations"] += res["violations"]
        total["inconclusive"] += res["inconclusive"]
        for name, text in res["known"].items():
            total["known"].setdefault(name, text)
        total["capped"] = total["capped"] or res["capped"]
    total["violations"].sort(key=lambda v: v["case"])
    return total


def aggregate(prop, total, tier):
    """Decisions that need all shards together (statistics)."""
    import mon.plan as plan

    verdict = plan.AGGREGATE.get(prop)
    return verdict(total, tier) if verdict else []


def known_findings():
    with open(os.path.join(HERE, "KNOWN_FINDINGS.json")) as file:
        return json.load(file)["findings"]


def main():
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    import mon.plan as plan

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in WATCHDOG else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as file:
            replay = json.load(file)
        tier, seed, only = replay["tier"], replay["seed"], replay["case"]
    start = time.time()
    scratch = tempfile.mkdtemp(prefix=f"clubs-{prop}-")
    try:
        results, errors = run_workers(prop, tier, seed, scratch, only)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    total = merge(results)
    total["violations"] += aggregate(prop, total, tier) if only is None else []
    spec = plan.PROPS[prop]
    missing = {
        name: (total["counters"].get(name, 0), need)
        for name, need in spec["required"].items()
        if total["counters"].get(name, 0) < need
    } if only is None else {}

    open_findings = {f["id"]: f for f in known_findings() if f["property"] == prop}
    violations = list(total["violations"])
    for name, text in sorted(total["known"].items()):
        if name in open_findings:
            print(f"KNOWN-FINDING: property={prop} {open_findings[name]['what']}")
        else:
            violations.append({"case": -1, "what": text, "finding": name})

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total["evaluations"],
            "distinct_nontrivial": len(total["distinct"]),
            "rule": spec["rule"],
            "samples": total["samples"][:5],
            "observed": dict(sorted(total["counters"].items())),
            "maxima": dict(sorted(total["maxima"].items())),
            "workers": len(results),
            "stopped_by_time_cap": total["capped"],
            "exhaustive": bool(spec.get("exhaustive", False)) and not total["capped"],
        },
        "assumptions": spec["assumptions"],
        "wall_s": round(time.time() - start, 2),
        "violations": len(violations),
    }
    if only is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as file:
            json.dump(evidence, file, indent=1)
            file.write("\n")
    print(f"{prop} {tier} seed={seed}: {total['evaluations']} evaluations, "
          f"{len(total['distinct'])} distinct non-trivial, "
          f"{evidence['wall_s']} s, counters {json.dumps(total['counters'], sort_keys=True)}")
    if violations:
        folder = os.path.join(HERE, "evidence", "replays")
        os.makedirs(folder, exist_ok=True)
        first = violations[0]
        path = os.path.join(folder, f"{prop}-{tier}-{seed}-{first['case']}.json")
        with open(path, "w") as file:
            json.dump(dict(first, property=prop, tier=tier, seed=seed,
                           all=len(violations)), file, indent=1, default=str)
            file.write("\n")
        print(first["what"])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    for text in total["inconclusive"]:
        print(f"skipped {text}")
    if errors or missing or not results:
        for text in errors:
            print(f"INCONCLUSIVE {text}")
        for name, (got, need) in missing.items():
            print(f"INCONCLUSIVE monitor observed {got} {name}, needs {need}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
