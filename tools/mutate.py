"""Mutation testing of the checks (not part of any check): mutate.py LIST | RUN slot nslots out.jsonl [file-regex]
Makes small syntactic changes to copies of /repo/src and records which properties' checks notice, with reduced numbers of cases."""
import glob, json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIG = os.environ.get("MUT_SRC", "/repo")
SIM = ["C%02d" % i for i in range(1, 17)]
CASES = dict(C17=400, C18=150, C19=1500, C20=800, C21=600, C22=12000, C23=80)
BIN = {p: "sim" for p in SIM}
BIN.update(C17="reactor", C18="reactor", C19="reactor", C20="http", C21="http", C22="config", C23="e2e")
REL = [("handlers/broker_handler", SIM + ["C23"]), ("queuing/", SIM + ["C23"]), ("worker", SIM), ("reactor/command", SIM + ["C23"]),
       ("reactor/router", ["C19", "C17", "C23"]), ("reactor/socket_w", ["C19", "C17", "C23"]), ("reactor/", ["C17", "C18", "C23"]),
       ("notifier", ["C02", "C20", "C21", "C13", "C23"]), ("status_notifier", ["C20", "C21", "C23"]), ("curl", ["C20", "C21", "C23"]),
       ("config/", ["C22", "C23"]), ("broker_co", ["C23"]), ("main", ["C23"]), ("helpers/", ["C23", "C15", "C12"])]
RULES = [
    (r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-])<(?![<=\w])", "<="), (r"(?<![\->])>(?![>=\w;(:])", ">="),
    (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+= 1", "+= 2"), (r"\+= 1", "+= 0"),
    (r"-= 1", "-= 2"), (r"\bfront\(\)", "back()"), (r"push_back", "insert_front_"), (r"push_front\(", "push_back("),
    (r"if \((.*)\) \{", r"if (!(\1)) {"), (r"if \((.*)\) \{", r"if (true) {"), (r"if \((.*)\) \{", r"if (false) {"),
    (r"\bcontinue;", "break;"), (r"\bbreak;", "continue;"), (r"milliseconds\(0\)", "milliseconds(1)"), (r"\+ 1\b", "+ 2"), (r"\+ 1\b", ""),
    (r"- 1\b", ""), (r"ZMQ_SNDMORE : 0", "0 : 0"), (r"\.at\(1\)", ".at(0)"), (r"\.at\(3\)", ".at(2)"), (r"\.begin\(\) \+ 1", ".begin()"),
    (r"\b100\b", "1000"), (r"\b4\b", "3"), (r"\*= 2", "*= 1"), (r"return nullptr;", "return {};"), (r"size\(\) < 3", "size() < 2"),
    (r'"(\w[\w-]*)"', r'"\1x"'), (r"(\w+)->(\w+)\((\w+), (\w+)\)", r"\1->\2(\4, \3)"), (r"push_back\(\w+\);", ";"),
]


def mutants():
    out = []
    for f in sorted(glob.glob(ORIG + "/src/**/*.cpp", recursive=True) + glob.glob(ORIG + "/src/**/*.h", recursive=True)):
        rel = os.path.relpath(f, ORIG)
        lines = open(f).read().split("\n")
        comment = False
        for i, l in enumerate(lines):
            t = l.strip()
            if t.startswith("/*"): comment = True
            if comment:
                if "*/" in t: comment = False
                continue
            if not t or t.startswith(("//", "#", "logger_->", "*")) or "logger" in t:
                continue
            seen = set()
            for a, b in RULES:
                if b == "insert_front_": continue
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if b in (">=", "<=", "<", ">") and re.search(r"(ptr|vector|map|multimap|tuple|pair|function|set|cast|list|deque|atomic|duration|enable_if|unique_lock|lock_guard|template) ?<|operator|\[this\]|->", l): continue
                    if n != l and n not in seen:
                        seen.add(n)
                        out.append((rel, i, l, n))
            if t.endswith(";") and not re.match(r"(return|auto |const |static |using |std::\w+[<\w:, >*]* \w+( =|;|\()|[\w:]+(<.*>)? \*?&?\w+( = .*|\(.*\))?;$|public|private|virtual|class|struct|bool |int |break|typedef|throw|\}|explicit|~)", t) and "(" in t or re.match(r"[\w\[\]\.>\-]+ (=|\+=|-=) .*;$", t):
                out.append((rel, i, l, re.match(r"\s*", l).group(0) + ";"))
    return out


def main():
    ms = mutants()
    if sys.argv[1] == "LIST":
        from collections import Counter
        for k, v in Counter(m[0] for m in ms).items(): print(v, k)
        print(len(ms))
        return
    slot, n, out = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    pat = sys.argv[5] if len(sys.argv) > 5 else "."
    root = "/tmp/mut/%d" % slot
    shutil.rmtree(root, ignore_errors=True)
    shutil.copytree(ORIG + "/src", root + "/repo/src")
    os.environ["VERIF_REPO"] = root + "/repo"
    os.environ["VERIF_BUILD"] = root + "/build"
    sys.path.insert(0, V + "/tools")
    import build
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=77", VERIF_TMP=root)
    ms = [m for m in ms if re.search(pat, m[0])]
    import random
    random.Random(7).shuffle(ms)
    for k, (rel, i, old, new) in enumerate(ms):
        if k % n != slot: continue
        p = root + "/repo/" + rel
        src = open(ORIG + "/" + rel).read().split("\n")
        src[i] = new
        open(p, "w").write("\n".join(src))
        build._hdr_cache.clear()
        rec = dict(file=rel, line=i + 1, old=old.strip(), new=new.strip())
        props = next(x for q, x in REL if q in rel)
        t0 = time.time()
        try:
            bins = {}
            for b in sorted({BIN[x] for x in props}):
                bins[b] = build.build(b)
            if "C23" in props: env["VERIF_BIN_BROKER"] = build.build("broker")
            killed = {}
            for x in props:
                o = root + "/o.json"
                r = subprocess.run(["timeout", "-k", "5", "150", bins[BIN[x]], "--prop", x, "--seed", "1", "--cases", str(CASES.get(x, 1500)), "--secs", "60", "--jobs", "3",
                                    "--shrink-secs", "0", "--out", o, "--replay-out", root + "/r"], env=env, cwd=root, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 1: killed[x] = json.load(open(o)).get("kind")
                elif r.returncode != 0: killed[x] = "rc%d" % r.returncode
                if len(killed) >= 3: break
            rec["killed"] = killed
        except build.BuildError as e:
            rec["error"] = "build"
        rec["t"] = round(time.time() - t0)
        with open(out, "a") as f: f.write(json.dumps(rec) + "\n")
        shutil.copy(ORIG + "/" + rel, p)
        # keep the cache small
        if k % 50 == slot:
            for f in glob.glob(root + "/build/bin/*"): os.unlink(f)


main()
