#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
NA={
 "P26":"the generator reads the Unicode data files over the network, keeps its state in Go maps and float ratios, and prints source with text/template: its output cannot be produced here at all, and its trie builder hashes whole blocks, which leaves nothing symbolic to decide. The committed tables themselves are decided by P06.",
}
import sys
sys.path.insert(0,os.path.join(root,"tools"))
SPEC={
 "P01":"no oracle needed: contiguity, progress, validity and panics are asserted directly",
 "P02":"oracle: GB1-GB999 written as a left-context automaton over the Unicode 17 classes in data/ref.txt",
 "P03":"oracle: WB1-WB999 over the Unicode 17 classes in data/ref.txt",
 "P04":"oracle: SB1-SB998 over the Unicode 17 classes in data/ref.txt",
 "P05":"oracle: the word rules with the two documented changes over the Unicode 17 classes in data/ref.txt",
 "P06":"the character is symbolic over all encodings of its width; oracle: reference rules between fixed contexts",
 "P07":"the reader's schedule (cuts, empty reads, end, failure) is symbolic; bufio.Scanner is executed from its source",
 "P17":"the characters of the known finding are left out of the inputs",
 "P20":"every store is checked against the frozen package state and caller data; suspected writes are confirmed with the race detector on the real build",
 "P27":"the code under test is instrumented with a step counter (in every loop and around library calls that go over bytes) before it is encoded; the bound is an assertion on the counter, and a counterexample is run on the same instrumented build",
 "P25":"every allocating operation a path executes is an obligation; the solver's input for it is run on the real build and counted there",
}
TRUST=" Trusts Go's compiler and runtime, go/ssa, z3, and the models of utf8.DecodeRune and byte searches; every instance is also validated on native sample runs and every counterexample is replayed natively before it is reported. Outside the bounds in the evidence nothing is claimed."
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in NA:
        na.append({"property":i,"reason":NA[i]}); continue
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "evidence_file":f"evidence/{i}.json",
      "technique":"symbolic execution of the repository's Go SSA with the property as an assertion, decided by z3 over all inputs within the stated bounds, counterexamples replayed natively",
      "level":"model_checking",
      "level_note":"Bounded: every input, schedule and history within the bounds the evidence lists is covered (the solver also confirms that the explored paths cover all of them)"+("; "+SPEC[i] if i in SPEC else "")+"."+TRUST})
m={"version":1,"setup_cmd":"./setup.sh",
 "hooks":{"guard":"none: /repo carries no hooks; harnesses are overlaid at analysis and build time","enable":"the checker loads /repo with /verif/harness overlaid as internal packages (go/packages and go build -overlay)","source_commits":[]},
 "checks":checks,"not_applicable":na,
 "notes":"See DESIGN.md. known-findings.txt lists recorded and repaired defects."}
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
