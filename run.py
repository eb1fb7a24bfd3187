#!/usr/bin/env python3
"""run.py <property> [quick|thorough]   decides one property against /repo's current working tree
   run.py --replay <file>               runs a stored failing case again
   run.py --build                       builds every harness binary
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build

# property -> binary, then per tier: cases, seconds
P = {}
for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14"):
    P[i] = dict(bin="sim", quick=(120000, 60), thorough=(4000000, 1500), fuzz="fuzz_sim")
P["C07"] = dict(bin="sim", quick=(150000, 60), thorough=(4000000, 1200), fuzz="fuzz_sim")
P["C15"] = dict(bin="sim", quick=(150000, 60), thorough=(4000000, 1200), fuzz="fuzz_sim")
P["C16"] = dict(bin="sim", quick=(200000, 50), thorough=(6000000, 1200), fuzz="fuzz_sim")
P["C17"] = dict(bin="reactor", quick=(6000, 90), thorough=(100000, 1200))
P["C18"] = dict(bin="reactor", quick=(3000, 60), thorough=(60000, 1200))
P["C19"] = dict(bin="reactor", quick=(30000, 60), thorough=(800000, 1200))
P["C20"] = dict(bin="http", quick=(40000, 60), thorough=(1500000, 1200))
P["C21"] = dict(bin="http", quick=(40000, 60), thorough=(1000000, 1200))
P["C22"] = dict(bin="config", quick=(600000, 50), thorough=(10000000, 900), fuzz="fuzz_config")
P["C25"] = dict(bin="e2e", needs=["broker"], quick=(2500, 70), thorough=(40000, 900))
P["C26"] = dict(bin="e2e", needs=["broker"], quick=(1000, 90), thorough=(15000, 1200))
P["C27"] = dict(bin="e2e", needs=["broker"], quick=(500, 90), thorough=(8000, 1200))
P["C24"] = dict(bin="res", quick=(15000, 40), thorough=(400000, 900))
P["C23"] = dict(bin="e2e", needs=["broker"], quick=(1200, 120), thorough=(15000, 1500))

ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
           UBSAN_OPTIONS="print_stacktrace=0", LC_ALL="C.UTF-8")


def load_known(prop):
    """Findings that are recorded rather than repaired: 'known: property=<id> kind=<kind> match=<regex> :: text'."""
    r = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                r.append(m.groups()[1:])
    return r


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = P[prop]
    try:
        binp = build.build(cfg["bin"])
        extra = []
        for n in cfg.get("needs", []):
            extra += ["--with", n + "=" + build.build(n)]
    except build.BuildError as e:
        print(e)
        print("ERROR: the harness does not build against /repo")
        return 2
    t_build = time.time() - t0
    cases, secs = cfg[tier]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join(HERE, "replays", "%s-seed%d-%s.txt" % (prop, seed, tier))
    if os.path.exists(replay):
        os.unlink(replay)
    tmp = tempfile.mkdtemp(prefix="verif-")
    try:
        out = os.path.join(tmp, "result.json")
        env = dict(ENV)
        for i in range(0, len(extra), 2):
            k, v = extra[i + 1].split("=", 1)
            env["VERIF_BIN_" + k.upper()] = v
        env["VERIF_TMP"] = tmp
        cmd = [binp, "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--secs", str(secs), "--out", out,
               "--replay-out", replay]
        with open(os.path.join(tmp, "stderr"), "wb") as errf:
            p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=errf, cwd=tmp)
        if p.returncode not in (0, 1) or not os.path.exists(out):
            print(open(os.path.join(tmp, "stderr"), errors="replace").read()[-3000:])
            print("ERROR: the harness ended with status", p.returncode)
            return 2
        r = json.load(open(out))
        cov = dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"], rule=r["rule"],
                   samples=r["samples"], classes=r["labels"], inconclusive=r["inconclusive"],
                   unconfirmed=r["unconfirmed"], search_s=round(r["wall_s"], 1), build_s=round(t_build, 1))
        violated = r["status"] == "violated"
        if not violated and tier == "thorough" and cfg.get("fuzz"):
            fz = fuzz(prop, cfg["fuzz"], seed, tmp, replay, binp, env, 300)
            cov["coverage_guided"] = fz
            if fz.get("violated"):
                violated = True
                r.update(kind=fz["kind"], message=fz["message"], trace=fz["trace"])
        known = []
        if violated:
            for kind, pat, text in load_known(prop):
                if kind == r["kind"] and re.search(pat, r["message"]):
                    known.append(text)
            if known:
                violated = False
        ev = dict(property=prop, tier=tier, seed=seed, level=LEVEL.get(prop, "exploration"), coverage=cov,
                  wall_s=round(time.time() - t0, 1), violations=1 if violated else 0,
                  assumptions=ASSUME.get(cfg["bin"], []))
        if violated:
            ev["coverage"]["violation"] = dict(kind=r["kind"], message=r["message"], trace=r["trace"])
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for t in known:
            print("KNOWN-FINDING: property=%s %s" % (prop, t))
        if violated:
            print(r["trace"])
            print("%s: %s" % (r["kind"], r["message"]))
            print("VIOLATION property=%s replay=%s" % (prop, replay))
            return 1
        print("%s held: %d cases (%d distinct non-trivial) in %.0f s + %.0f s build" %
              (prop, r["evaluations"], r["distinct_nontrivial"], r["wall_s"], t_build))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def fuzz(prop, name, seed, tmp, replay, binp, env, secs):
    """Coverage-guided search (libFuzzer) over the same choice tapes; a failing input becomes a tape and is shrunk."""
    fb = build.build(name)
    corpus = os.path.join(tmp, "corpus")
    os.makedirs(corpus)
    env = dict(env, VERIF_FUZZ_PROP=prop, TMPDIR=tmp)
    p = subprocess.run(["timeout", "-k", "10", str(secs + 120), fb, "-seed=%d" % (seed or 1), "-max_total_time=%d" % secs, "-max_len=4000", "-len_control=20",
                        "-fork=8", "-ignore_crashes=0", "-ignore_timeouts=1", "-ignore_ooms=1", "-rss_limit_mb=3000",
                        "-artifact_prefix=" + tmp + "/", corpus],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=tmp)
    res = dict(corpus=len(os.listdir(corpus)), exit=p.returncode)
    m = re.findall(r"#(\d+): cov: (\d+) ft: (\d+)", p.stdout)
    if m:
        res.update(executions=int(m[-1][0]), edges=int(m[-1][1]), features=int(m[-1][2]))
    for art in sorted(glob.glob(os.path.join(tmp, "crash-*"))):
        tape, out = os.path.join(tmp, "tape"), os.path.join(tmp, "fuzz.json")
        subprocess.run([fb, art], env=dict(env, VERIF_FUZZ_TAPE=tape), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run([binp, "--prop", prop, "--first", tape, "--cases", "1", "--jobs", "1", "--out", out, "--replay-out", replay],
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=tmp)
        r = json.load(open(out))
        if r["status"] == "violated":
            res.update(violated=True, kind=r["kind"], message=r["message"], trace=r["trace"])
            break
        res["unconfirmed"] = res.get("unconfirmed", 0) + 1
    return res


LEVEL = {"C21": "fault_enumeration", "C26": "fault_enumeration", "C27": "fault_enumeration"}
ASSUME = {
    "sim": ["broker_handler is called as the reactor calls it: one message at a time, from one thread",
            "job ids of accepted jobs are distinct", "clang's address and undefined behaviour sanitizers"],
    "reactor": ["libzmq's inproc and tcp transports deliver as documented"],
    "http": ["libcurl and the loopback network", "nanosleep is replaced by a stand-in that records the delay"],
    "res": ["the address sanitizer's count of allocated bytes"],
    "config": ["yaml-cpp parses YAML correctly"],
    "e2e": ["the loopback network", "libzmq",
            "src/broker_core.cpp is compiled against spdlog 1.x through a small shim (harness/spdlog_shim.hpp)"],
}


def main(a):
    if a[:1] == ["--build"]:
        for n in (a[1:] or ["sim", "reactor", "http", "config", "res", "e2e", "broker"]):
            try:
                print(build.build(n))
            except build.BuildError as e:
                print(e)
                return 2
        return 0
    if a[:1] == ["--replay"]:
        txt = open(a[1]).read()
        prop = re.search(r"# property (\S+)", txt).group(1)
        binp = build.build(P[prop]["bin"])
        env = dict(ENV)
        for n in P[prop].get("needs", []):
            env["VERIF_BIN_" + n.upper()] = build.build(n)
        return subprocess.run([binp, "--prop", prop, "--replay", os.path.abspath(a[1])], env=env).returncode
    return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))


if __name__ == "__main__":
    # whoever started this may have had signals ignored or blocked, which children would inherit
    for _s in (signal.SIGTERM, signal.SIGHUP, signal.SIGQUIT, signal.SIGCHLD, signal.SIGALRM):
        signal.signal(_s, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    sys.exit(main(sys.argv[1:]))
