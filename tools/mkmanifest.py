#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and NOTES below"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
NA = json.load(open(V + "/tools/not_applicable.json")) if os.path.exists(V + "/tools/not_applicable.json") else []
LN = json.load(open(V + "/tools/level_notes.json")) if os.path.exists(V + "/tools/level_notes.json") else {}
na = {n["property"] for n in NA}
checks = []
for p in props:
    i = p["id"]
    if i in na or not glob.glob(V + "/contracts/%s_*.cpp" % i.lower()):
        continue
    txt = "".join(open(f).read() for f in glob.glob(V + "/contracts/%s_*.cpp" % i.lower()))
    ents = [e for e in re.findall(r'VC_ENTRY\((\w+)\)', txt) if e.startswith(i + "_")]
    bnd = re.findall(r'//\s*bounded:\s*(\w+)', txt)
    proof = [e for e in ents if e not in bnd]
    level = "proof" if proof else "other"
    default = ("proved without bound: %s; " % ", ".join(proof) if proof else "no entry is unbounded: contracts of the real entry points discharged by the verifier for all values within stated bounds; ") + ("bounded stand-ins (not counted as proved): %s; " % ", ".join(e for e in ents if e in bnd) if any(e in bnd for e in ents) else "") + "see DESIGN.md"
    checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "technique": "contract-based deductive verification of the real code: pre/postconditions on the public entry points and on internal functions, VC generation over the LLVM IR of /repo's sources, obligations discharged by z3",
                   "level": level, "level_note": LN.get(i, default)})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": NA,
           "notes": "no hooks in /repo: contracts live in /verif/contracts and are linked against the bitcode of /repo's current sources"}, open(V + "/MANIFEST.json", "w"), indent=1)
