#!/usr/bin/env python3
"""cover.py [PID ...]: which lines of the library the checks execute (a means to find what is not monitored; decides nothing).
Rebuilds everything with gcov instrumentation in a scratch folder, runs the quick checks, and prints, per source file, the
number of executed and executable lines; the unexecuted ones are written to cover.json in that folder."""
import json, os, subprocess, sys, glob, gzip
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get("COVER_BUILD", "/tmp/vbuildc")
R = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
env = dict(os.environ, VF_COV="1", VERIF_BUILD=B)
pids = sys.argv[1:] or list(json.load(open(HERE + "/checks.json")))
for f in glob.glob(B + "/obj/*/*/*.gcda"): os.unlink(f)
for p in pids:
    r = subprocess.run([sys.executable, "check.py", p], cwd=HERE, env=env, capture_output=True, text=True)
    print(p, r.returncode, r.stdout.strip().splitlines()[-1][:150] if r.stdout.strip() else r.stderr[-300:], flush=True)
hit, fun = {}, {}
for f in glob.glob(B + "/obj/*/*/*.gcda"):
    r = subprocess.run(["gcov", "--json-format", "--stdout", f], cwd=R, capture_output=True)
    for doc in r.stdout.decode().splitlines():
        if not doc.startswith("{"): continue
        for g in json.loads(doc)["files"]:
            p = os.path.normpath(g["file"])
            if not p.startswith(("src/", "Apps/")): continue
            d = hit.setdefault(p, {})
            for l in g["lines"]: d[l["line_number"]] = d.get(l["line_number"], 0) + l["count"]
            for q in g["functions"]:
                k = (p, q["demangled_name"]); fun[k] = fun.get(k, 0) + q["execution_count"]
tot = [0, 0]
for p in sorted(hit):
    n, e = len(hit[p]), sum(1 for v in hit[p].values() if v); tot[0] += e; tot[1] += n
    print("%-45s %5d of %5d  %3d%%" % (p, e, n, 100*e//max(n, 1)))
print("all: %d of %d lines" % tuple(tot))
json.dump(dict(lines={p: {str(l): c for l, c in d.items()} for p, d in hit.items()}, functions=sorted(p + " " + n for (p, n), c in fun.items() if not c)), open(B + "/cover.json", "w"))
