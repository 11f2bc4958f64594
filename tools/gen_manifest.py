#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl.
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
NA={
"F01":"Ranking is a pure function of the query and the list: no concurrency, clock, I/O, fault or second party for the answer to depend on, so there is nothing for a simulator to schedule or inject.",
"F02":"Recognition of link syntax is a pure function of one line of text with no schedule, time, I/O or peer; deciding it is input generation against a grammar, not simulation.",
}
NOTE={
"*":"Seeded search over schedules and faults of the real packages under the simulator; bounded by the number of runs and the sizes of generated cases, no exhaustive coverage.",
"R17":" The generated script is additionally executed by the sandbox's real /bin/sh in a scratch directory, as an unprivileged user.",
}
SKIP=set(os.environ.get("SKIP","").split())
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in NA: na.append(dict(property=i,reason=NA[i])); continue
    if i in SKIP: na.append(dict(property=i,reason="Check under construction.")); continue
    checks.append(dict(property=i,quick_cmd="./check "+i,thorough_cmd="VERIF_TIER=thorough ./check "+i,
      evidence_file="evidence/%s.json"%i,
      technique="deterministic simulation with fault injection: seeded search over schedules and fault sequences",
      level="exploration",level_note=NOTE["*"]+NOTE.get(i,"")))
m=dict(version=1,setup_cmd="./check --smoke",
  hooks=dict(guard="verif",enable="No hooks are needed in /repo: the simulator rewrites a copy of the sources while it builds (sim/simgen), so the build tag guards nothing.",source_commits=[]),
  checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1)
