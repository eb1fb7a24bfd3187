"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = ("stateful model-based property testing of broker_handler and both queue managers: generated histories on a virtual clock, "
       "an independent monitor judges every output")
T = {i: SIM for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C08", "C09", "C10", "C11", "C12", "C13", "C14")}
T["C07"] = "model-based property testing of multi_queue_manager: generated operation sequences against a reference model"
T["C15"] = "fuzzing of broker_handler with generated and mutated frames under sanitizers; metamorphic relation: undefined messages change nothing"
T["C16"] = "property testing of header matching against an independent definition, and under permutation of headers"
T["C17"] = "stateful property testing of the reactor with real sockets and threads: generated topologies, bursts, delays and stops against a delivery model"
T["C18"] = "property testing of the reactor's elapsed time on a virtual clock with generated traffic, handler durations and clock steps"
T["C19"] = "stateful property testing of router_socket_wrapper with generated peers, identities and frames: round trip through real sockets"
T["C20"] = "property testing of HTTP notifications: round trip of generated text through a real HTTP server that decodes it"
T["C21"] = "generated fault sequences of a real HTTP server against a model of the retry policy"
T["C22"] = "property testing of the configuration reader: generated settings rendered as YAML against expected values; mutated documents"
T["C23"] = "model-based end-to-end testing of the real broker process over TCP with generated configurations, histories and unusable start-ups"
T["C24"] = "property testing with repetition: generated histories are repeated and the memory, descriptors and threads in use afterwards must not grow"
T["C25"] = "differential property testing of the real broker process: generated logging configurations and events, the log compared with that of an unrestricted run"
T["C26"] = "crash-point injection: the real broker process is killed and restarted at generated points of generated histories over TCP, judged by the end-to-end model"
T["C27"] = "fault injection with generated histories: the frontend, the monitor and clients of the real broker process stall, fail and return at generated points while all other traffic is awaited and judged by a model"
N = {
    "res": "Random search over histories repeated 15 to 25 times; growth smaller than a few bytes per repetition is not noticed. Trusts the address sanitizer's count of allocated bytes.",
    "sim": "Random search with shrinking over histories of up to about 60 events; the thorough tier adds coverage-guided search (libFuzzer) over the same choice tapes. No proof. Trusts the harness' monitor, the sanitizers, and that the reactor calls the handler one message at a time (C17).",
    "reactor": "Random search over topologies and traffic with real libzmq sockets and threads; schedules come from the operating system plus generated delays. Trusts libzmq.",
    "http": "Random search over texts and fault sequences against a real HTTP server on loopback; pauses are recorded by stand-ins instead of slept. Trusts libcurl.",
    "config": "Random search over settings, renderings and mutated documents. Trusts yaml-cpp as the YAML parser.",
    "e2e": "Random search with the real program, compiled with sanitizers; broker_core.cpp is compiled against the installed spdlog through a small shim. Trusts libzmq and the loopback network.",
}
import sys
sys.path.insert(0, HERE)
import run
m = dict(version=1, setup_cmd="python3 run.py --build", checks=[], not_applicable=[],
         notes="No hooks in /repo: harnesses compile /repo/src with build files of their own (tools/build.py). Commits starting 'fix:' repair genuine defects, see known_findings.txt.")
for i in sorted(T):
    m["checks"].append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                            evidence_file="evidence/%s.json" % i, technique=T[i], level=run.LEVEL.get(i, "exploration"),
                            level_note=N[run.P[i]["bin"]]))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
