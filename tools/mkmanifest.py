#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
V='/verif/'
ids=[json.loads(l)['id'] for l in open(V+'properties.jsonl')]
claimed=json.load(open(V+'tools/claimed.json'))
na=json.load(open(V+'tools/not_applicable.json'))
note="Every obligation generated from the contracts in /verif/contracts and the current source of /repo is discharged by an SMT solver for all inputs and all iterations. Trusted: govc's semantics of go/ssa and its text rules, the solvers, and the assumed contracts of standard library and dependency functions listed in the evidence. "
checks=[]
for i in ids:
    if i in claimed:
        checks.append({"property":i,"quick_cmd":"./check %s quick"%i,"thorough_cmd":"./check %s thorough"%i,"evidence_file":"evidence/%s.json"%i,
          "technique":"contracts on the Go functions, verification conditions from go/ssa of the current source, discharged by z3/cvc5 (deductive)","level":"proof","level_note":note+claimed[i]})
nas=[{"property":i,"reason":na.get(i,"No contract for it has been completed yet.")} for i in ids if i not in claimed]
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":nas,
 "notes":"A check also runs a short runtime contract driver (rac/) on the compiled library: it searches for a concrete failing input when an obligation fails; nothing it does counts as discharged."}
json.dump(m,open(V+'MANIFEST.json','w'),indent=1)
