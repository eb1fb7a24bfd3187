"""tryseeds.py [ids]: applies each planted bug to /repo in turn, runs the stable tests, its demonstration and the check of its property."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
extra = os.environ.get("CHECKS", "").split()
if sh("git -C /repo status --porcelain").stdout.strip():
    sys.exit("/repo is not clean")
for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    clean = sh("bash %s/demo.sh" % d, cwd="/repo") if not os.environ.get("NOCLEAN") else None
    a = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        t = sh("bash /opt/vp/test.sh /tmp/seed-test.json")
        passed = set(json.load(open("/tmp/seed-test.json"))["passed"])
        demo = sh("bash %s/demo.sh" % d, cwd="/repo")
        res = []
        for p in [prop] + extra:
            t0 = time.time()
            c = sh("python3 run.py %s quick" % p, cwd=V)
            res.append("%s:%s(%.0fs)" % (p, {0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR"), time.time() - t0))
            open("/tmp/seed-%s-%s.log" % (i, p), "w").write(c.stdout)
    finally:
        sh("git -C /repo checkout -- .")
    print("%-32s applies=%s tests=%d/%d clean-demo=%s demo=%s %s" % (i, a.returncode == 0, len(base & passed), len(base), clean and clean.returncode, demo.returncode, " ".join(res)), flush=True)
    if clean and clean.returncode: print(clean.stdout[-500:])
    if demo.returncode in (0, 2): print(demo.stdout[-700:])
