#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
TRACE = "TLA+ specification (Snaps.tla) explored with TLC; behaviours it generates and randomised programs are executed on the real code and the recorded traces are validated by TLC against the same specification"
T = {}
for i in range(1, 21):
    T["C%02d" % i] = (TRACE, "model_checking", "Exhaustive on the small model; on the real code, every executed call is judged by the specification from the real disk state before it. Assumes the executed programs are representative; the abstraction of file content to lines is injective up to SHA-1 of long lines.")
EXTRA = {
 "C06": ("TLA+ model of locks and file-system steps (Conc.tla) explored with TLC; its interleavings and all schedules with few preemptions are executed on the real code by a deterministic scheduler, and the traces are validated by TLC against Snaps.tla; free runs under the race detector", None,
         "Exhaustive on the small model and, for small programs, over all schedules of the real code with at most two (thorough: three) preemptions at lock and file-system operations; sampled beyond. Code between two scheduling points is assumed to run alone; data races are looked for by the race detector."),
 "C11": ("TLA+ location function (Loc.tla) explored with TLC; call shapes x options x packages are executed in a generated module, with and without -trimpath, and the traces are validated by TLC", None,
         "Exhaustive on LocMC; the call shapes are an enumerated set crossed with all APIs, the options are sampled."),
 "C12": ("TLA+ model of Configs (Config.tla) explored with TLC; every ordered pair of entry points and of Update options and random histories are executed on the real code, the traces validated by TLC against Snaps.tla; shared Configs under the race detector", None,
         "Exhaustive on the model and over ordered pairs; longer histories are sampled."),
 "C13": ("TLA+ specification of edit scripts, hunks and reports (Diff.tla) explored with TLC over all small pairs; reports and edit scripts of the real code for all pairs over small alphabets and for long texts are validated by TLC (DiffTrace.tla)", None,
         "Exhaustive for pairs over three letters up to length five (quick: up to symmetry); long texts are sampled. The layout of a report is that of the current tree."),
}
for p in ("C14", "C15", "C16", "C17", "C18"):
    EXTRA[p] = ("TLA+ specification of documents, paths and matchers (Docs.tla) explored with TLC; generated documents, presentations and matcher sequences are executed on the real code and the traces validated by TLC (DocsTrace.tla), stored texts being read back by independent parsers", None,
                "Exhaustive on small document trees; the executed documents, paths and matchers are sampled. Paths with wildcards, queries or modifiers are outside the model.")
for p, (a, b, c) in EXTRA.items():
    T[p] = (a, b or "model_checking", c)
T.update(getattr(checks, "TECH", {}))
NA = [("C%02d" % i, "no check yet: under construction") for i in range(1, 21) if "C%02d" % i not in checks.CHECKS]
m = {"version": 1, "setup_cmd": "bash bin/setup",
     "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only, and build the working tree of /repo through a module with a replace directive (C06 adds yield points through go test -overlay, generated from the working tree)", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "bin/check %s" % p, "thorough_cmd": "bin/check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": T[p][0], "level": T[p][1], "level_note": T[p][2]} for p in sorted(checks.CHECKS)],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
