"""plant.py SPEC.py [id ...]: writes /verif/seeded/<id>/ for the planted changes listed in SPEC.py.

Each is kept only after this has been seen: it applies, builds, passes the stable tests, its demonstration passes on the
unchanged tree and fails with the change. The checks of its property are then run against it and the result printed.
The tree is put back straight afterwards."""
import json, os, subprocess, sys, runpy
R, V = "/repo", "/verif"


def sh(cmd, cwd=R, t=600, env=None):
    p = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t, env=env)
    return p.returncode, p.stdout + p.stderr


def one(b):
    d = "%s/seeded/%s" % (V, b["id"])
    assert sh("git status --porcelain")[1].strip() == "", "repo not clean"
    base = {}
    try:
        for f, old, new in b["edits"]:
            p = R + "/src/lop/" + f
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches for %r" % (b["id"], s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        os.makedirs(d, exist_ok=True)
        diff = sh("git diff")[1]
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=src\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write("import warnings\nwarnings.filterwarnings('ignore')\nimport sys\nimport numpy as np\nimport lop\n\n" + b["demo"].strip() + "\n")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, out = sh("bash /opt/vp/build.sh")
        if rc:
            return "%s: BUILD FAILS %s" % (b["id"], out[-300:])
        sh("bash /opt/vp/test.sh /tmp/plant.json")
        o = json.load(open("/tmp/plant.json"))
        bs = json.load(open("/opt/vp/BASELINE.json"))
        miss = set(bs.get("stable") or bs.get("passed") or bs.get("tests")) - set(o["passed"])
        rc1, out1 = sh("bash %s/demo.sh" % d)
        res = []
        for c in [b["property"]] + b.get("also", []):
            rc, out = sh("python3 -m lopcheck.check %s" % c, cwd=V)
            res.append("%s=%d" % (c, rc))
    finally:
        sh("git checkout -- .")
    rc0, out0 = sh("bash %s/demo.sh" % d)
    bad = []
    if miss:
        bad.append("TESTS FAIL %s" % sorted(miss)[:3])
    if rc1 == 0:
        bad.append("DEMO PASSES WITH CHANGE")
    if rc0:
        bad.append("DEMO FAILS ON CLEAN: " + out0[-300:])
    if bad:
        sh("git -C %s clean -fdq seeded/%s" % (V, b["id"]))
    return "%s: %s %s | %s" % (b["id"], " ".join(bad) or "kept", " ".join(res), out1.strip().split("\n")[-1][:150])


spec = runpy.run_path(sys.argv[1])["BUGS"]
for b in spec:
    if len(sys.argv) < 3 or b["id"] in sys.argv[2:]:
        print(one(b), flush=True)
sh("bash /opt/vp/build.sh")
