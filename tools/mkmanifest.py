#!/usr/bin/env python3
"""Writes MANIFEST.json from the ledger and the specifications' property tags."""
import json, subprocess
lv = json.loads(subprocess.check_output(["/verif/bin/gvc", "level"]))
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
na = json.load(open("/verif/tools/not_applicable.json"))
checks, out = [], []
for p in props:
    i = p["id"]
    if i not in lv or i in na:
        out.append({"property": i, "reason": na.get(i, "no specification within the verifier's reach has been completed for this property; it is not claimed")})
        continue
    l = lv[i]
    note = "Proved for all inputs by gvc (contract-based deductive verification of the SSA of /repo's current source): %s." % ", ".join(l["proved"] or ["none"])
    if l["bounded"]:
        note += " Bounded only (run on generated inputs, never counted as proved): %s." % ", ".join(l["bounded"])
    note += " Trusts gvc's translation, go/ssa, z3/cvc5, the models of dependencies named in the evidence; assumes sequential execution and does not prove termination. A failed obligation is replayed on generated inputs against the real code."
    checks.append({"property": i, "quick_cmd": "sh check.sh " + i, "thorough_cmd": "sh check.sh " + i, "technique": "contract-based deductive verification: Go specification functions as contracts, obligations from go/ssa discharged by z3/cvc5", "level": l["level"], "level_note": note})
m = {"version": 1, "setup_cmd": "sh setup.sh", "checks": checks, "not_applicable": out, "notes": "No hooks in /repo: the specifications are overlaid at verification time, the verified text is /repo's own source."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
print(len(checks), "checks;", len(out), "not claimed:", " ".join(o["property"] for o in out))
