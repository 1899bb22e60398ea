#!/usr/bin/env python3
"""Write MANIFEST.json from the checks present and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    "C31": "cannot be decided here: the akaze crate does not build in this sandbox (its image dependencies are absent), so there is no resolved program to analyse; a purely textual check would not be a decision",
    "C32": "cannot be decided here: cv-sfm does not build in this sandbox (its dependencies are absent); the property is an invariant over histories of hash-map edits, which needs heap-shape reasoning over code that cannot even be resolved",
    "C33": "numerical accuracy under noise is a quantitative statement over floating-point runtime values; no static argument in reach bounds the error of the iterative decompositions involved",
    "C34": "repeatability under image transformations is an empirical property of image content, not decidable from the source",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module("checks." + p.lower())
        checks.append(dict(property=p, quick_cmd="./check %s" % p, thorough_cmd="./check %s --thorough" % p, technique=m.TECHNIQUE, level="other",
                           level_note=getattr(m, "NOTE", "Static analysis of the compiled program (rustc MIR of /repo's current tree): " + m.RULE +
                                              ". Values are real-number formulas; floating-point rounding is not modelled. What cannot be decided is reported as undecided in the evidence, not as a violation.")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "no check built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
