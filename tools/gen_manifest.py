#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation: seeded random search over schedules and injected faults, "
O = {
 "C01": "differential oracle: each operation against the same one alone in a fresh process",
 "C02": "differential oracle: each operation against the same one alone in a fresh process",
 "C03": "differential oracle: each operation against the same one alone in a fresh process",
 "C04": "Go race detector run under the simulator's schedules (hand-over adds no happens-before edges)",
 "C05": "snapshots of everything the caller handed in (spare capacity included) compared after every operation",
 "C06": "recording response writer checked against the recorded faults",
 "C07": "recording response writer checked against the recorded faults",
 "C08": "every serialization recorded; bodies and labels matched with one of them",
 "C09": "counters per operation compared with the outcome its client saw",
 "C10": "timer samples compared with simulated time at the seams",
 "C11": "differential oracle: each operation against the same one without observability",
 "C12": "scheduler finds blocked or endless operations; probes after the faults compared with solo runs",
 "C13": "panics that no fault injected are caught at every operation",
 "C14": "recorded coder faults and an independent decoder of the returned bytes",
 "C15": "recorded coder faults, damaged inputs and the original content",
 "C16": "every opened coder counts its closes and later uses",
 "C17": "independent reference codec and round trips under short reads and writes",
 "C18": "the same sequence executed under other map iteration orders",
 "C19": "held byte slices compared with copies; overwritten by their owners",
 "C20": "differential oracle, with negotiators built during traffic and hooks in package defaults",
}
NOTE = {
 "_": "Sampled, not exhaustive: evidence is that no violation occurred in the seeded runs the evidence file counts. Interleavings are at the granularity of library statements and environment calls. Trusted: the simulator (scheduler, overlay, stubs), the Go toolchain, standard library and dependencies.",
 "C04": "Sampled, not exhaustive. The race detector sees every memory access of the library on the executed schedules and judges by happens-before, so one overlapping execution of two conflicting accesses is enough. Trusted: the Go race detector and the simulator.",
}
NA = {
 "N01": "A function of one request and one set of metadata: no schedule, clock, fault or history enters into it. Concurrent and historical effects on it are C01 and C18.",
 "N02": "A pure function of request and metadata; nothing for a simulator to schedule or to fail. What faults can do to the selection (failing or changing serializations while sizes are compared) is under C08 and C13.",
 "N03": "A pure function of request and metadata. Interference and faults are under C03, C06 and C08.",
 "N04": "Parsing is a pure function of the header values. That parsing cannot panic or leave traces under the histories and faults simulated is under C01 to C03 and C13.",
 "N05": "A pure function of predicate and feature set.",
 "N06": "A pure function of numbers.",
 "N07": "Rendering is a pure function of metadata. That lists are whole and of the right request under concurrency is under C02, C03 and C08.",
 "N08": "A function of one request and one configuration. That options of one negotiator never leak into another under any order of construction is C20.",
 "N09": "A fixed format choice (compress is zlib, deflate is raw flate here) that no schedule or fault changes. Order and completeness of codings under faults are C14 to C17.",
}
checks = [{"property": p, "quick_cmd": f"bash bin/check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough bash bin/check.sh {p}",
           "technique": T + O[p], "level": "exploration", "level_note": NOTE.get(p, NOTE["_"])} for p in sorted(O)]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "none: /repo has no hooks; yields, the simulated clock and map orders enter through go build -overlay",
               "enable": "bin/build.sh writes an instrumented copy of every library file below /verif/build and builds with -overlay; /repo is not touched", "source_commits": []},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "Genuine defects found and repaired are in KNOWN_FINDINGS.txt. bin/replay.sh FILE executes a replay file."}
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
