"""Writes MANIFEST.json from the check modules that exist."""
import ast, json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    f=V+"/vf/checks/%s.py"%p["id"].lower()
    if not os.path.exists(f):
        na.append(dict(property=p["id"],reason="check still under construction")); continue
    t=ast.parse(open(f).read()); d={}
    for n in t.body:
        if isinstance(n,ast.Assign) and isinstance(n.targets[0],ast.Name):
            try: d[n.targets[0].id]=ast.literal_eval(n.value)
            except ValueError: pass
    checks.append(dict(property=p["id"],quick_cmd="./check "+p["id"],thorough_cmd="./check "+p["id"]+" thorough",
      technique=d.get("TECHNIQUE","runtime monitoring of generated command histories"),
      level=d["LEVEL"],level_note=d.get("NOTE","Holds on the executions observed in this run; trusts the fake rbd and the harness.")))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,not_applicable=na,
  notes="Runtime monitoring of the real code. No hooks in /repo. KNOWN_FINDINGS lists findings and fixes."),open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"n/a")
