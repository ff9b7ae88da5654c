#!/usr/bin/env python3
"""Runs the check of one property: builds the instrumented harnesses against /repo's current
tree, runs their workloads, judges what the monitors reported, and writes the evidence file.

  check.py <property> [--tier quick|thorough] [--seed N] [--only harness]
  check.py --replay <file>          runs one recorded case again
  check.py --build [property ...]   builds only
  check.py --closures [property..]  records which sources each harness needs
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import vb  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))


def registry():
    with open(os.path.join(HERE, "checks.json")) as f:
        return json.load(f)


def known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)["findings"]


def hname(h):
    return os.path.splitext(os.path.basename(h["source"]))[0]


VALGRIND = ["valgrind", "-q", "--tool=memcheck", "--error-limit=no", "--show-mismatched-frees=no", "--num-callers=12"]
MEMSCALE = 0.1  # share of the quick workload that is run under Memcheck


def memcheck(h):
    """The same harness, built without sanitizers and run under Memcheck."""
    return dict(h, variant="mem." + h["variant"])


def build(h, record=False):
    return vb.build(hname(h), h["source"], h["variant"], record and "sources" not in h, tuple(h.get("extra", ())),
                    h.get("sources"))


ENV = dict(OMP_NUM_THREADS="1", OMP_WAIT_POLICY="passive", OPENBLAS_NUM_THREADS="1", LC_ALL="C", TZ="UTC")


def run_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("OMP_", "OPENBLAS_", "ASAN_", "UBSAN_", "TSAN_"))}
    e.update(ENV)
    return e


def run(exe, h, tier, seed, dirn, scale=None):
    rep = os.path.join(dirn, "report.json")
    cmd = [exe, "--seed", str(seed), "--report", rep, "--dir", dirn, "--jobs", str(h.get("jobs", vb.JOBS))]
    if h["variant"].startswith("mem."):
        cmd = VALGRIND + ["--log-file=%s/vg.%%p" % dirn] + cmd
        scale = (scale or 1) * h.get("memscale", MEMSCALE)
    elif tier == "thorough":
        cmd.append("--thorough")
    if scale:
        cmd += ["--scale", str(scale)]
    limit = 780 if tier == "quick" else 6 * 3600
    e = run_env()
    e.update(h.get("env", {}))
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=limit, env=e, errors="replace")
    except subprocess.TimeoutExpired:
        return None, "time limit"
    if r.returncode or not os.path.exists(rep):
        return None, "harness ended with %d: %s" % (r.returncode, (r.stderr or r.stdout)[-1500:])
    with open(rep) as f:
        return json.load(f), None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--closures", action="store_true")
    ap.add_argument("--memcheck", action="store_true", help="only the part run under Memcheck")
    a = ap.parse_args()
    reg = registry()

    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        h = [x for x in reg[rp["property"]]["harnesses"] if hname(x) == rp["harness"]
             and x["variant"] == rp["variant"].replace("mem.", "")][0]
        mem = rp["variant"].startswith("mem.")
        h = memcheck(h) if mem else h
        d = tempfile.mkdtemp(prefix="vf.", dir="/tmp")
        e = run_env()
        e.update(h.get("env", {}))
        r = subprocess.run((VALGRIND + ["--error-exitcode=1"] if mem else []) + [build(h), "--seed", str(rp["seed"]), "--family", rp["family"], "--index", str(rp["index"]),
                            "--dir", d] + (["--thorough"] if rp.get("tier") == "thorough" and not mem else []), env=e)
        shutil.rmtree(d, ignore_errors=True)
        return 0 if r.returncode == 0 else 1

    if a.build or a.closures:
        todo = a.property or sorted(reg)
        done = set()
        for p in todo:
            for h in reg[p]["harnesses"]:
                if (hname(h), h["variant"]) in done:
                    continue
                done.add((hname(h), h["variant"]))
                t = time.time()
                build(h, a.closures)
                print("built", hname(h), h["variant"], "%.1fs" % (time.time() - t), flush=True)
        return 0

    pid = a.property[0]
    t0 = time.time()
    fams, fails, built = [], [], 0.0
    todo = [h for h in reg[pid]["harnesses"] if not a.only or hname(h) == a.only]
    if a.tier == "thorough" or a.memcheck:
        todo = ([] if a.memcheck else todo) + [memcheck(h) for h in todo if h["variant"] != "tsan" and h.get("memscale", 1) > 0]
    for h in todo:
        tb = time.time()
        try:
            exe = build(h)
        except vb.BuildError as e:
            print("cannot build the harness of", pid)
            print(e)
            return 2
        built += time.time() - tb
        d = tempfile.mkdtemp(prefix="vf.", dir="/tmp")
        try:
            rep, err = run(exe, h, a.tier, a.seed, d, a.scale)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if err:
            print("no verdict for", pid, ":", err)
            return 3
        for f in rep["families"]:
            f["harness"], f["variant"] = hname(h), h["variant"]
            fams.append(f)
            for x in f["failures"]:
                fails.append(dict(x, harness=hname(h), variant=h["variant"], family=f["name"]))

    kn = [k for k in known() if k["property"] == pid and not k.get("fixed")]
    hit, bad = {}, []
    for x in fails:
        m = [k for k in kn if k["family"] == x["family"] and re.fullmatch(k["key"], x["key"])]
        if m:
            hit.setdefault(m[0]["what"], x)
        else:
            bad.append(x)

    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": pid, "tier": a.tier, "seed": a.seed, "level": reg[pid].get("level", "exploration"),
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in fams),
            "distinct_nontrivial": sum(f["distinct"] for f in fams),
            "rule": reg[pid]["rule"],
            "samples": [dict(family=f["family"] if "family" in f else f["name"], case=s)
                        for f in fams for s in f["samples"][:2]][:40],
            "workloads": [dict(harness=f["harness"], build=f["variant"], family=f["name"],
                               evaluations=f["evaluations"], distinct_nontrivial=f["distinct"],
                               observed=f["events"]) for f in fams],
        },
        "assumptions": reg[pid].get("assumptions", []),
        "violations": len(bad), "wall_s": round(time.time() - t0, 2), "build_s": round(built, 2),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d evaluations, %d distinct non-trivial, %d families, %.1f s (build %.1f s)" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(fams), ev["wall_s"], built))
    for k in kn:
        if k["what"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if not bad:
        return 0
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    seen = set()
    for x in bad:
        k = (x["family"], x["key"])
        if k in seen:
            continue
        seen.add(k)
        p = os.path.join(rdir, "%s-%d.json" % (pid, len(seen)))
        with open(p, "w") as f:
            json.dump(dict(property=pid, seed=a.seed, tier=a.tier, **x), f, indent=1)
            f.write("\n")
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s [%s] #%d %s: %s" % (x["family"], x["variant"], x["index"], x["key"], x["msg"][:600]))
        if len(seen) >= 12:
            print("  ... and more")
            break
    return 1


if __name__ == "__main__":
    sys.exit(main())
