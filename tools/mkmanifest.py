#!/usr/bin/env python3
"""Regenerates MANIFEST.json: every property with a harness is claimed, the others are listed with their reason."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "P01": "The bindings are Cython sources: what runs is generated C driven by the CPython object model; no symbolic front end here can execute it, and the guarantee is about that generated glue.",
}
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)
    i = p["id"]
    hs = sorted(os.path.basename(h) for h in glob.glob("%s/harness/%s*.cpp" % (V, i)))
    if hs:
        bounds = [l.split("@bounds", 1)[1].strip() for h in hs for l in open(V + "/harness/" + h) if l.startswith("// @bounds")]
        checks.append(dict(property=i, quick_cmd="python3 engine/run.py " + i, thorough_cmd="env VERIF_TIER=thorough python3 engine/run.py " + i,
            evidence_file="evidence/%s.json" % i,
            technique="path-forking symbolic execution of the real C++ sources with Z3 (reals, NRA/nlsat; IEEE-754 where stated), counterexamples replayed natively under ASan",
            level="model_checking", level_note=("bounded: " + "; ".join(bounds))[:900]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="mkdir -p build evidence", checks=checks, not_applicable=na), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
