import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, R + "/tools"]
from props import PROPS, NA
from checks import CHECKS
open(R + "/properties.jsonl", "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in PROPS))
na = {n["property"] for n in NA}
assert {p["id"] for p in PROPS} == set(CHECKS) | na, ({p["id"] for p in PROPS} ^ (set(CHECKS) | na))
m = dict(version=1, setup_cmd="python3 check.py --setup",
  checks=[dict(property=p["id"], quick_cmd="python3 check.py %s --tier quick" % p["id"], thorough_cmd="python3 check.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
    technique="symbolic execution of the compiled LLVM IR of the real code, path and assertion conditions decided by SMT (z3, cvc5 cross-check)",
    level="model_checking", level_note="Bounded: " + CHECKS[p["id"]]["note"] + " All paths within the bounds are explored and every assertion is decided by the solver or constant-folded; counterexamples and sample paths are replayed on the native build. Trusts the symbolic executor, rustc's IR, and the models of cobyla/argmin, rayon and libc file/clock calls (DESIGN.md).") for p in PROPS if p["id"] not in na],
  not_applicable=NA, notes="No hooks in /repo: the harness crate links the unmodified library; third-party cobyla, argmin and rayon are replaced by models via [patch.crates-io] in /verif/harness only.")
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(R + "/MANIFEST.json", "a").write("\n")
