#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the claims below."""
import json,os,re,glob
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
exec(open(os.path.join(here,'claims.py')).read())
COMMON=("Every obligation generated from the functions' contracts on /repo's current source (go/ssa of the code that is compiled, nothing extracted or rewritten) is discharged by z3/cvc5 for all inputs and all iterations; "
 "assumed: gvc's SSA semantics, machine integers as mathematical integers, contracts on dependencies listed in the evidence, sequential execution outside the lock and goroutine rules stated in DESIGN.md. ")
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in CLAIMS:
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":"contract-based deductive verification (contracts on the Go functions, weakest-precondition style symbolic execution of go/ssa, SMT)",
          "level":"proof","level_note":(COMMON+CLAIMS[i]).strip()})
    else:
        na.append({"property":i,"reason":NOT[i]})
m={"version":1,"setup_cmd":"bash build.sh","hooks":{"guard":"none","enable":"no hooks: the checks read /repo's sources as they are; replay harnesses enter through go test -overlay","source_commits":[]},
 "checks":checks,"not_applicable":na,"notes":"fix: commits in /repo and known findings are listed in known_findings.txt"}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1,ensure_ascii=False)
print(len(checks),'claimed',len(na),'not claimed')
