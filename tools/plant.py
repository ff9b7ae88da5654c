#!/usr/bin/env python3
"""plant.py ID PROP SPEC: plants the bug described in SPEC (a python dict file: file/old/new edits, demo source, needs,
breaks) in /repo, confirms that it builds, passes the stable tests, that its demo tells it apart, runs the check, undoes it."""
import json, os, subprocess, sys, shutil
V = "/verif"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def plant(spec, recheck=False):
    d = f"{V}/seeded/{spec['id']}"
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
    if not recheck:
        os.makedirs(d, exist_ok=True)
        for f, old, new in spec["edits"]:
            p = "/repo/" + f; t = open(p).read()
            assert t.count(old) == 1, (spec["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git -C /repo diff").stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.C", "w").write(spec["demo"])
        shutil.copy(V + "/tools/plant/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=spec["prop"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(d + "/meta.json", "w"), indent=1)
    else:
        assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
    res = {}
    try:
        if not spec.get("nobuild"):
            b = sh("bash /opt/vp/test.sh /tmp/plant.json")
            t = json.load(open("/tmp/plant.json")); base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss = [x for x in base if x not in t["passed"]]
            res["tests"] = "ok" if not miss else "FAIL %d %s" % (len(miss), miss[:3])
            r = sh(f"bash {d}/demo.sh", cwd="/repo"); res["demo_patched"] = r.returncode; res["pout"] = (r.stdout + r.stderr)[-300:]
        r = sh(f"python3 check.py {spec['prop']}", cwd=V)
        res["check"] = r.returncode; res["viol"] = "VIOLATION property=" + spec["prop"] in r.stdout; res["cout"] = r.stdout[-700:]
    finally:
        sh("git -C /repo checkout -- .")
    if not spec.get("nobuild"):
        sh("bash /opt/vp/build.sh"); r = sh(f"bash {d}/demo.sh", cwd="/repo"); res["demo_clean"] = r.returncode; res["clout"] = (r.stdout + r.stderr)[-300:]
    ok = res.get("tests", "ok") == "ok" and res.get("demo_patched", 1) != 0 and res.get("demo_clean", 0) == 0
    print(spec["id"], "VALID" if ok else "INVALID", "CAUGHT" if res["check"] == 1 and res["viol"] else "MISSED")
    print("   ", res, flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "--recheck":
        for i in sys.argv[2:]:
            m = json.load(open(f"{V}/seeded/{i}/meta.json")); plant(dict(id=i, prop=m["property"], nobuild=1), True)
    else:
        specs = []
        for f in sys.argv[1:]:
            ns = {}; exec(open(f).read(), ns); specs += ns["SPECS"]
        for s in specs: plant(s)
