#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]   decides one property against /repo's working tree
   check.py --build [<property>...]                          builds the check binaries only
   check.py --replay FILE [times]                            runs one saved case again
Exit 0: held on everything explored; 1: violated (a line VIOLATION property=<id> replay=<path>); 2: no answer."""
import argparse, json, os, subprocess, sys, time
os.environ.setdefault("OMP_WAIT_POLICY", "passive")   # threads of the parallel algorithms that wait do not spin
import build as B
from registry import CHECKS, QUICK_SCALE

VERIF = os.path.dirname(os.path.abspath(__file__))


def bins_of(pid):
    return {name: spec for name, spec in CHECKS[pid]["bins"].items()}


def known_findings(pid):
    """entries 'known: property=<id> binary=<bin> what=<text>' of known-findings.txt that belong to pid"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line[len("known: property=%s " % pid):])
    return out


def run_check(pid, tier, seed, scale=1.0, only=None, keep_going=False, jobs=8):
    t0 = time.time()
    spec = CHECKS[pid]
    exes = B.build(bins_of(pid), tag=pid)
    build_s = time.time() - t0
    replay_dir = os.path.join(VERIF, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if tier == "quick":
        scale *= QUICK_SCALE.get(pid, 1.0)
    budget_total = 420 if tier == "quick" else 3600
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "nontrivial": 0, "operations": 0, "discarded": 0, "inconclusive": 0,
           "unreproduced_failures": 0, "out_of_time": False, "rule": spec["rule"], "targets": {}, "samples": []}
    rc = 0
    violations = 0
    names = sorted(exes)
    for i, name in enumerate(names):
        out = os.path.join(B.BUILD, "out-%s-%s.json" % (pid, name))
        if os.path.exists(out):
            os.unlink(out)
        left = max(30.0, (budget_total - (time.time() - t0)) / (len(names) - i))
        cmd = [exes[name], "run", "--seed", str(seed), "--tier", tier, "--out", out, "--prop", pid, "--replay-dir", replay_dir,
               "--budget", "%.0f" % left, "--scale", str(scale), "--jobs", str(jobs)]
        if only:
            cmd += ["--only", only]
        if keep_going:
            cmd += ["--keep-going"]
        r = subprocess.run(cmd)
        if r.returncode not in (0, 1):
            print("check %s: %s ended with status %d" % (pid, name, r.returncode))
            rc = 2 if rc == 0 else rc
        if r.returncode == 1:
            rc = 1
        if os.path.exists(out):
            d = json.load(open(out))
            violations += d["violations"]
            for k in ("evaluations", "distinct_nontrivial", "nontrivial", "operations", "discarded", "inconclusive", "unreproduced_failures"):
                cov[k] += d[k]
            cov["out_of_time"] = cov["out_of_time"] or d["out_of_time"]
            for k, v in d["targets"].items():
                cov["targets"][k if len(names) == 1 else name + "/" + k] = v
            cov["samples"] += d["samples"][:12]
        if rc == 1 and not keep_going:
            break
    for line in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, line))
    cov["build_s"] = round(build_s, 1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if rc == 0:
        print("%s: held on %d cases (%d distinct non-trivial, %d operations), build %.0f s, total %.0f s"
              % (pid, cov["evaluations"], cov["distinct_nontrivial"], cov["operations"], build_s, time.time() - t0))
    return rc


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay", action="store_true")
    a = ap.parse_args()
    if a.build:
        props = {}
        for pid in (a.args or sorted(CHECKS)):
            props.update(bins_of(pid))
        B.build(props, tag="all" if not a.args else "_".join(a.args), quiet=False)
        return 0
    if a.replay:
        path = os.path.abspath(a.args[0])
        pid = target = None
        for line in open(path):
            if line.startswith("prop "):
                pid = line.split()[1]
            if line.startswith("target "):
                target = line.split()[1]
                break
        exes = B.build(bins_of(pid), tag=pid)
        rc = 2
        for name, exe in sorted(exes.items()):     # every build that has the target
            l = subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout
            if any(x.split()[0] == target for x in l.splitlines()):
                print(name)
                sys.stdout.flush()
                rc = max(rc % 2, subprocess.run([exe, "replay", path] + a.args[1:2]).returncode)
        return rc
    rc = 0
    for pid in a.args:
        rc = max(rc, run_check(pid, a.tier, a.seed, a.scale, a.only, a.keep_going, a.jobs))
    return rc


if __name__ == "__main__":
    sys.exit(main())
