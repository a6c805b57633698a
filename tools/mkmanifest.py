#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
MODEL = "model-based property testing (random and enumerated histories against a std String model)"
NOTE = ("Small scope (every text of up to 2 chars over a 5-char alphabet, capacities 1-5, every argument near the limits) is enumerated completely on every run; beyond it a fixed number of "
        "seeded random boundary cases and histories over 39 capacities and CacheString, in release and checked builds. Trusts std's String/str as the oracle.")
C = {
    "C01": (MODEL + " with an invariant check on every view", NOTE),
    "C02": (MODEL, NOTE),
    "C03": (MODEL + "; the set of admissible errors is computed from the documented preconditions", NOTE),
    "C04": ("stateful property testing: text compared around every failing call, and each history replayed without its failed calls (metamorphic)", NOTE),
    "C05": (MODEL + "; longest-fitting-prefix oracle", NOTE + " Bounded reading of endless sources is judged by a deterministic count of items asked for."),
    "C06": (MODEL + "; accept-iff-fits oracle", NOTE + " Bounded reading of endless sources is judged by a deterministic count of items asked for."),
    "C07": ("differential property testing against std's UTF-16 decoder", NOTE),
    "C08": ("model-based property testing of the draining iterator (front/back/nth/copy/observe scripts against a char deque)", NOTE),
    "C09": ("differential property testing of ==, order, hash and map lookup against str", NOTE),
    "C10": ("differential property testing: CacheString and a capacity-63 string driven in lockstep", NOTE),
    "C11": ("differential property testing of indexing against str slicing, panics included", NOTE),
    "C12": (MODEL + "; formatting compared with str's", NOTE),
    "C15": ("generated-input search for panics and aborts over every operation, release and checked builds", NOTE),
    "C16": ("property testing under a counting global allocator", NOTE),
    "C18": ("fault injection by generated hostile callbacks (panicking, lying, inconsistent) with invariant checks", NOTE),
    "C19": ("differential property testing between feature and build configurations", "Four configurations (features none; std+logs with a formatting logger; std+serde; std+logs+serde+diesel+no-panic with logger, debug assertions on) run the same cases and must show identical results, and so must two of the serde and the error and layout harnesses; the thorough tier compares fourteen and six, and the diesel harness. The no-panic feature is inert in builds with debug assertions and does not link without them on this rustc, so it is only compared there."),
    "C20": (MODEL + " of copies and mutable views", NOTE),
    "C22": ("generated-input search with guard zones, debug assertions and AddressSanitizer as the oracle, and a share interpreted by Miri; libFuzzer in the thorough tier", NOTE + " Miri interprets a few hundred cases (quick) and stops after 200 s; undefined behaviour that none of these oracles notices is not seen."),
    "C23": ("metamorphic property testing: two generated histories alone and woven into each other at every call of caller code, on several threads at once", NOTE + " Threads run without a schedule of their own: what only a particular interleaving of machine instructions shows may be missed."),
}
SMALL = "Small cases are enumerated completely on every run, then a fixed number of seeded random ones, in release and checked builds. "
C.update({
    "C13": ("differential property testing against String's Deserialize and str's Serialize over generated JSON, visitor calls and value deserialisers", SMALL + "serde_json and hand-made serde formats only; 14 capacities and CacheString. Trusts serde's own impls for String and str."),
    "C14": ("differential property testing against diesel's own String and str impls over an in-memory SQLite database and the wire values of postgres and mysql", SMALL + "No postgres or mysql server: only the values they put on the wire. Seven capacities and CacheString; thorough adds AddressSanitizer."),
    "C17": ("property testing of all 255 capacities and the named types: sizes, which numbers are accepted, and generated histories that must be able to fill the string to the brim", SMALL + "The quick tier sees this platform only (64-bit, little-endian); the thorough one also judges a share of the cases on i686 and s390x under Miri."),
    "C21": ("exhaustive kind pairs plus property testing over decoding errors of generated ill-formed input", SMALL),
})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}", technique=C[i][0], level="exploration", level_note=C[i][1]))
    else:
        na.append(dict(property=i, reason="its check is not built yet"))
m = dict(version=1, setup_cmd="python3 check.py setup", hooks=dict(guard="none: no hooks were needed", enable="nothing to enable; every check uses the public API only", source_commits=[]), checks=checks, not_applicable=na,
         notes="Every check rebuilds its harness crate against /repo's working tree. Replay files go to /verif/replays; `python3 check.py replay FILE` reruns one.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
