"""trial.py FILE [ids]: tries the bugs listed in FILE (python: bug(id, props, [(file, old, new), ...])) on a scratch copy of /repo/src
and prints which of the named checks notice. A quick way to look for gaps; bugs worth keeping go to mkseeds.py."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []
def bug(id, props, edits): B.append((id, props.split(), edits))
exec(open(sys.argv[1]).read())
W = os.environ.get("TRIAL_DIR", "/tmp/trial")
env = dict(os.environ, VERIF_REPO=W + "/repo", VERIF_BUILD=W + "/build")
vc = W + "/verif"
shutil.rmtree(vc, ignore_errors=True)
shutil.copytree(V, vc, ignore=shutil.ignore_patterns("build", ".git", "seeded", "replays", "evidence"))
for id, props, edits in B:
    if sys.argv[2:] and id not in sys.argv[2:]: continue
    shutil.rmtree(W + "/repo", ignore_errors=True)
    shutil.copytree("/repo/src", W + "/repo/src")
    bad = False
    for f, a, b in edits:
        p = W + "/repo/src/" + f
        t = open(p).read()
        if t.count(a) != 1:
            print("!!", id, f, "matches", t.count(a)); bad = True
        open(p, "w").write(t.replace(a, b, 1))
    if bad: continue
    for p in props:
        t0 = time.time()
        r = subprocess.run(["python3", "run.py", p, "quick"], cwd=vc, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        line = r.stdout.strip().split("\n")
        print("%-34s %s %s %.0fs %s" % (id, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR"), time.time() - t0, line[-2][:150] if r.returncode == 1 else line[-1][:200] if r.returncode == 0 else r.stdout[-600:]), flush=True)
