"""Builds the harness binaries from /repo's current working tree.

Everything is keyed by content (never by time stamps): an object is reused only if its flags, its source and every
header of the repository and of the harness are byte-for-byte what they were.
"""
import hashlib, os, subprocess, sys, glob, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
HARNESS = os.path.join(VERIF, "harness")

CXX = "clang++"
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w",
        "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_FMT_EXTERNAL",
        "-I" + os.path.join(REPO, "src"), "-I" + HARNESS]
LIBS = ["-lspdlog", "-lfmt", "-lyaml-cpp", "-lzmq", "-lcurl", "-lboost_system", "-lboost_filesystem",
        "-lboost_program_options", "-lpthread"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]
FUZZ = ["-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=undefined"]
WRAPCLOCK = ["-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv", "-Wl,--wrap=_ZNSt6chrono3_V212steady_clock3nowEv",
             "-Wl,--wrap=clock_gettime", "-Wl,--wrap=gettimeofday", "-Wl,--wrap=time"]

# binary -> (sanitizer flags, harness sources, link flags, repo sources to leave out)
BINARIES = {
    "sim": (ASAN, ["engine.cpp", "clock.cpp", "sim.cpp", "world.cpp", "comp.cpp"], WRAPCLOCK, ["main.cpp", "broker_core.cpp"]),
    "reactor": (ASAN, ["engine.cpp", "clock.cpp", "reactor_h.cpp"], WRAPCLOCK, ["main.cpp", "broker_core.cpp"]),
    "http": (ASAN, ["engine.cpp", "http_h.cpp"], ["-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep", "-Wl,--wrap=usleep", "-Wl,--wrap=sleep"],
             ["main.cpp", "broker_core.cpp"]),
    "res": (ASAN, ["engine.cpp", "res_h.cpp"], ["-Wl,--wrap=nanosleep", "-Wl,--wrap=clock_nanosleep", "-Wl,--wrap=usleep", "-Wl,--wrap=sleep"],
            ["main.cpp", "broker_core.cpp"]),
    "config": (ASAN, ["engine.cpp", "config_h.cpp"], [], ["main.cpp", "broker_core.cpp"]),
    "e2e": (ASAN, ["engine.cpp", "e2e_h.cpp"], [], ["main.cpp", "broker_core.cpp"]),
    "broker": (ASAN, [], [], []),
    "fuzz_sim": (FUZZ, ["engine.cpp", "clock.cpp", "sim.cpp", "world.cpp", "comp.cpp", "fuzz.cpp"], WRAPCLOCK + ["-fsanitize=fuzzer"],
                 ["main.cpp", "broker_core.cpp"]),
    "fuzz_config": (FUZZ, ["engine.cpp", "config_h.cpp", "fuzz.cpp"], ["-fsanitize=fuzzer"],
                    ["main.cpp", "broker_core.cpp"]),
}
EXTRA_DEFS = {"fuzz_sim": ["-DPBT_FUZZ"], "fuzz_config": ["-DPBT_FUZZ"]}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, exts):
    r = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


_hdr_cache = {}


def headers_key(root):
    if root not in _hdr_cache:
        h = []
        for p in tree(root, (".h", ".hpp", ".inc")):
            h.append(os.path.relpath(p, root))
            h.append(hashlib.sha256(read(p)).hexdigest())
        _hdr_cache[root] = sha(*h)
    return _hdr_cache[root]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout


def compile_obj(src, flags, is_repo):
    key = sha(CXX, " ".join(flags), src, read(src), headers_key(os.path.join(REPO, "src")),
              "" if is_repo else headers_key(HARNESS))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        rc, out = run([CXX] + flags + ["-c", src, "-o", tmp])
        if rc != 0:
            raise BuildError("cannot compile %s\n%s" % (src, out[-4000:]))
        os.rename(tmp, obj)
    return obj


def build(name, pool=None):
    san, hsrc, link, leave_out = BINARIES[name]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    own = pool is None
    if own:
        pool = ThreadPoolExecutor(os.cpu_count() or 8)
    try:
        flags = BASE + san
        jobs = []
        repo_src = [p for p in tree(os.path.join(REPO, "src"), (".cpp", ".cc"))
                    if os.path.relpath(p, os.path.join(REPO, "src")) not in leave_out]
        # the slow ones first
        repo_src.sort(key=lambda p: -os.path.getsize(p))
        for s in hsrc:
            p = os.path.join(HARNESS, s)
            jobs.append(pool.submit(compile_obj, p, flags + EXTRA_DEFS.get(name, []), False))
        for p in repo_src:
            shim = name == "broker" and p.endswith("broker_core.cpp")
            f = flags + ["-include", os.path.join(HARNESS, "spdlog_shim.hpp")] if shim else flags
            jobs.append(pool.submit(compile_obj, p, f, not shim))
        objs = [j.result() for j in jobs]
        link_flags = san + link
        key = sha(" ".join(link_flags), *objs)
        binp = os.path.join(BUILD, "bin", name + "-" + key[:16])
        if not os.path.exists(binp):
            tmp = binp + ".%d.tmp" % os.getpid()
            rc, out = run([CXX] + link_flags + objs + LIBS + ["-o", tmp])
            if rc != 0:
                raise BuildError("cannot link %s\n%s" % (name, out[-4000:]))
            os.rename(tmp, binp)
        return binp
    finally:
        if own:
            pool.shutdown()


if __name__ == "__main__":
    for n in sys.argv[1:]:
        try:
            print(build(n))
        except BuildError as e:
            print(e, file=sys.stderr)
            sys.exit(2)
