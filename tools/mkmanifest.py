#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.json."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=json.load(open(V+'/checks.json'))
out={"version":1,
 "setup_cmd":"./run.sh -setup",
 "checks":[],"not_applicable":[],
 "notes":"Engine in engine/ (symbolic executor over go/ssa of /repo's current source, SMT back ends z3 / z3-new / cvc5), harnesses in harness/. See DESIGN.md."}
for p in props:
    i=p['id']
    c=checks.get(i)
    if c is None:
        out["not_applicable"].append({"property":i,"reason":"check under construction"})
        continue
    out["checks"].append({
      "property":i,
      "quick_cmd":f"./run.sh -prop {i} -tier quick",
      "thorough_cmd":f"./run.sh -prop {i} -tier thorough",
      "technique":"symbolic execution of the Go SSA of the real code, every assertion and branch decided by an SMT solver, counterexamples replayed against the real code",
      "level":"model_checking",
      "level_note":"Bounded: "+c["bounds"]+" Outside: "+c["outside"]+" Trusted: the SSA translator (engine/), cross-checked by replaying solver-chosen witnesses of explored paths on the compiled code, and the SMT solvers.",
    })
json.dump(out,open(V+'/MANIFEST.json','w'),indent=1,ensure_ascii=False)
