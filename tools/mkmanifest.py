import json,os,sys
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED=json.load(open(os.path.join(HERE,"tools","claimed.json")))
NA=json.load(open(os.path.join(HERE,"tools","not_applicable.json")))
ids=[json.loads(l)["id"] for l in open(os.path.join(HERE,"properties.jsonl"))]
checks=[]
for p in ids:
    if p in CLAIMED:
        c=CLAIMED[p]
        checks.append(dict(property=p,quick_cmd="python3 check.py %s quick"%p,thorough_cmd="python3 check.py %s thorough"%p,
            evidence_file="evidence/%s.json"%p,technique="deterministic simulation with fault injection: "+c["technique"],level=c.get("level","exploration"),level_note=c["note"]))
na=[dict(property=p,reason=NA.get(p,"no check yet")) for p in ids if p not in CLAIMED]
json.dump(dict(version=1,setup_cmd="bash build.sh std && bash build.sh asan",checks=checks,not_applicable=na),open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
