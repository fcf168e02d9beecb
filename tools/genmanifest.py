#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of implemented checks."""
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={}
def t(ids,technique,note=""):
    for i in ids.split(): T[i]=(technique,note)
exec(open(os.path.join(here,'tools','checks.py')).read())
checks=[]
for i in sorted(T):
    tech,note=T[i]
    c={"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"technique":tech,"level":"exploration"}
    c["level_note"]=note or "runtime monitoring: the verdict covers the executions observed; the evidence counts them"
    checks.append(c)
props=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
na=[{"property":p,"reason":NA.get(p,"no check yet")} for p in props if p not in T]
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"verif","enable":"no hooks are needed: the monitors use the exported interfaces and a monitoring engine in place of the prebuilt library","source_commits":[]},
   "checks":checks,"not_applicable":na,"notes":"Runtime monitoring with a reference model; see DESIGN.md"}
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'MANIFEST.json'),'a').write("\n")
