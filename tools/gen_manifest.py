"""writes MANIFEST.json from the props modules present"""
import json, os, re, subprocess
H = "/verif"
NA = {}
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
checks, na = [], []
NOTE = "Obligations generated from the LLVM IR of /repo's current source through contracts in props/%s.py, for all inputs and sizes; loop invariants inferred and checked inductive. Doubles are treated as reals (rounding outside the proof), sizes at most 2^28; the standard library, Eigen's dynamic matrices and boost::math are trusted contracts. The contract is also evaluated on concrete inputs against the compiled code, which is how counterexamples are replayed. Units the verifier cannot close fall back to bounded sizes and are listed as such in the evidence."
for p in props:
    i = p["id"]; low = i.lower()
    if os.path.exists("%s/props/%s.py" % (H, low)):
        t = open("%s/props/%s.py" % (H, low)).read()
        m = re.search(r'^LEVEL_NOTE = "(.*)"$', t, re.M)
        checks.append({"property": i, "quick_cmd": "python3-vt check.py %s --tier quick" % i, "thorough_cmd": "python3-vt check.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                       "technique": "contract-based deductive verification: pre/postconditions and inferred loop invariants on the real code, obligations from its LLVM IR discharged by a normaliser, z3 and cvc5", "level": "proof",
                       "level_note": NOTE % low + (" " + m.group(1) if m else "")})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt tools/selftest.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harnesses in props/*.cpp include the repository's headers unchanged. See DESIGN.md."}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
