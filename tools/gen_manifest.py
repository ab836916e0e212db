#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the harnesses present."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set()
for f in glob.glob(root+"/harness/h/*.go"):
    have |= set(re.findall(r"^func (C\d\d)_\w+\(\) \{", open(f).read(), re.M))
props = [json.loads(l) for l in open(root+"/properties.jsonl")]
bounds = json.load(open(root+"/harness/bounds.json"))
NA = {
 "C26": "The other implementations (Perl XS, Java, JavaScript, Python, Ruby, Objective-C, Erlang) cannot be encoded together with the Go one within reach: no installed front end covers those languages or their runtimes. The Go half is decided against the common specification by C10 and C11.",
 "C27": "Exhausting a 1 GB goroutine stack takes millions of nested levels; solver-based checking unrolls a few dozen. The decoder has no depth limit at all, so there is no bounded obligation to discharge.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif i in have:
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
            technique="bounded symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver (z3), counterexamples replayed natively",
            level="model_checking",
            level_note="Holds for every value within the bounds; nothing outside them. " + " ".join(bounds.get(i, [])) + " Trusted: the engine's semantics of Go SSA and its models of the runtime, reflect and library calls (each explored path's witness is rerun natively and compared, a sample per run), z3."))
    else:
        na.append(dict(property=i, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the harnesses are compiled in through an overlay. See DESIGN.md."),
    open(root+"/MANIFEST.json", "w"), indent=1)
