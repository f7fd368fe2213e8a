#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
LAB = "stateful generation of operation histories over the built program in an SVM"
DIFF = "differential against the real token programs executed directly"
C = {
 "C01": (f"{LAB}; balance invariant after every operation; shrinking to a minimal history", "Random histories; escrow minus supply is recomputed from account bytes after every operation."),
 "C02": (f"{LAB}; {DIFF}, all accounts byte for byte", "Every generated wrap is compared with TransferChecked + MintTo executed directly."),
 "C03": (f"{LAB}; {DIFF}, all accounts byte for byte", "Every generated unwrap is compared with Burn + TransferChecked executed directly."),
 "C04": (f"{LAB}; {DIFF} (acceptance); every history ends with everyone redeeming everything", "No refusal of anything the token programs accept, and full redemption."),
 "C05": (f"{LAB} over authority kinds and signer lists; {DIFF} (acceptance) and allowance accounting", "Owner, delegate, stranger, multisig m-of-n with arbitrary signer lists."),
 "C19": (f"{LAB} over several pairs, nested wraps and mixed-pair instructions; other pairs' accounts byte-identical", "Random histories over up to a dozen pairs."),
 "C20": (f"{LAB} on hooked mints with a recording hook program; {DIFF}", "The hook's own record is compared before and after every wrap and unwrap."),
}
exec(open(os.path.join(here, "manifest_more.py")).read()) if os.path.exists(os.path.join(here, "manifest_more.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
checks = []
for i in ids:
    if i not in C: continue
    t, n = C[i]
    checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
      "evidence_file": f"evidence/{i}.json", "technique": "property-based testing: " + t, "level": "exploration",
      "level_note": n + " Exploration, not proof: the number of cases, the share that is non-trivial and samples are in the evidence. The VM and the token programs are trusted."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in C],
     "notes": "No hooks in /repo are needed: the checks run the program built from /repo's working tree and link its library."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
