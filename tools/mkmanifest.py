#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the property list and the monitors that exist in the harness."""
import json,re,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
src=open(V+"/harness/src/props.rs").read()
have=re.findall(r'id: "(P\d+)"',src)
T=json.load(open(V+"/tools/techniques.json"))
m={"version":1,"setup_cmd":"bash ./setup.sh","checks":[],"not_applicable":[],
"notes":"All checks share one monitor binary built from harness/ (path dependency on /repo, public API only, no hooks). ./check P.. [replay-file] rebuilds and runs one; VERIF_SEED and VERIF_TIER select the workload."}
for p in props:
    if p["id"] in have:
        t=T.get(p["id"],{})
        m["checks"].append({"property":p["id"],"quick_cmd":f"./check {p['id']}","thorough_cmd":f"VERIF_TIER=thorough ./check {p['id']}",
          "evidence_file":f"evidence/{p['id']}.json",
          "technique":t.get("technique","runtime monitoring: generated workloads observed by a reference-model oracle"),
          "level":"exploration",
          "level_note":t.get("note","Held on the executions explored (counts in the evidence file); trusts the harness's own model of the format. Built with overflow checks and debug assertions on.")})
    else:
        m["not_applicable"].append({"property":p["id"],"reason":"monitor not built yet"})
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
print(len(m["checks"]),"claimed",[x["property"] for x in m["not_applicable"]])
