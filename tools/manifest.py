#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
T = {
 "C01": ("structured generation of stores + round trip", "Random search over stores built independently of the library; trusts the generator to reach every type and format boundary (the class counts in the evidence show it). Assumes nesting of at most 128 containers."),
 "C02": ("structured generation + round trip inside a longer buffer, with and without trees", "Random search; the tree used for reading is the one used for writing."),
 "C03": ("exhaustive truncation of generated encodings + generated ill-formed encodings from an independent encoder", "Every cut of small encodings, spread cuts of large ones; the kinds of ill-formed field are enumerated, their contents sampled."),
 "C04": ("structure-aware fuzzing (token grammar, mutations, deep nesting) with crash, hang and allocation monitors", "Random search on a 2 MiB stack with a cap of 64 MiB on single allocations; a case that runs for over 100 s twice counts as never ending."),
 "C05": ("generated byte strings + round trip + size comparison of all schemes", "Random search with runs and repeats at the format's limits."),
 "C06": ("generated corpora + round trip + prefix-freeness + optimal-cost oracle", "The optimal cost comes from an independent two-queue computation."),
 "C07": ("model-based histories against a list of booleans", "Histories of up to 25 operations, compared after every step."),
 "C08": ("model-based histories against slice and index", "Histories of up to 20 operations, compared after every step."),
 "C09": ("generated integers, all pairs of types, exact-arithmetic oracle", "Boundary-rich random search; all 16-bit numbers are enumerated."),
 "C10": ("differential against an independent encoder + round trip", "Boundary-rich random search."),
 "C11": ("generated pairs and texts against exact numbers", "Boundary-rich random search."),
 "C12": ("generated operand pairs and floats against exact arithmetic", "A panic counts as a refusal and is only accepted where a result or operand does not fit the type the operation uses."),
 "C13": ("generated numbers, round trip and hypot/atan2 oracle", "Relative error up to 1e-14 is allowed in modulus and argument."),
 "C14": ("generated JSON documents and serde data + round trip", "JSON numbers are those serde_json can hold; nesting as serde_json allows."),
 "C15": ("generated values + round trip + independent table of typed JSON", "Which values have a JSON form is decided by an independent table."),
 "C16": ("metamorphic pairs (same value made differently, one part changed) against structural comparison", "Values without NaN."),
 "C17": ("all accessor/kind pairs over generated values + model-based store histories", "Random search against a plain map."),
 "C26": ("differential against an independent reader and writer of the format", "The independent codec was written from the format's documentation in the sources."),
 "C18": ("model-based request histories against the real daemon", "Single client; the model is a map of maps; the daemon binary is the one built from the tree."),
 "C19": ("generated concurrent histories against the real daemon + linearizability checking", "Schedules are sampled, helped by large databases that widen the windows; not exhaustive."),
 "C20": ("model-based histories with generated restarts and kills of the real daemon", "The saver's 10 s timer is shortened by a preloaded shim; kill means the process ends, not the machine."),
 "C21": ("fault injection at every file operation of a save in generated histories", "Crash points and failing operations are enumerated per generated history through a preloaded shim; writes reach the file in order (no reordering of unsynced pages)."),
 "C22": ("generated hostile names on every route + recording of the files the process touches", "The daemon runs as an unprivileged user in a scratch directory; a preloaded shim records the paths."),
 "C23": ("fuzzed requests and bodies mixed into model-based histories", "The daemon's state is compared with the model after every history."),
 "C24": ("model-based histories through both clients against the real daemon", "Both clients run in one process against one daemon; a shim maps the fixed port."),
 "C25": ("generated databases and documents through the real tool in a pseudo-terminal", "Prompts are driven by keystrokes as a user would type them."),
 "C27": ("generated bodies through the extractors and answers + round trip + differential against direct reading", "The extractors are called as axum calls them, without a server around them."),
 "C28": ("generated values + independent rendering of scalars + tables taken apart into rows", "Keys in the table checks hold no line ends, control or box-drawing characters; long contents are shortened, because tables of them take seconds to draw."),
    "C29": ("generated requests put to two other builds of the library (no optional features; interpreted as 32-bit big-endian) + number model, independent codec and differential against the native build", "An interpreter stands in for the foreign machine; its contents are kept small because it is slow."),
    "C30": ("generated hostile bytes, LZ4 blocks and stores, each handled three times with fresh memory filled differently + independent LZ4 decoder", "Heap memory is varied, the stack is not."),
}
L = {"C21": "fault_enumeration"}
have = set(sys.argv[1:]) or set(T)
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        t, n = T[i]
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}", "technique": t, "level": L.get(i, "exploration"), "level_note": n})
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "bash check.sh all", "checks": checks, "not_applicable": na,
     "notes": "Known and repaired defects are in known_findings.json. VH_SCALE multiplies case counts."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
