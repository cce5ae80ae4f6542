import json
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
import os,importlib.util
spec=importlib.util.spec_from_file_location("claims","/verif/tools/claims.py"); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
checks=[]; na=[]
for p in props:
    if p in m.CLAIMS:
        t,l,n=m.CLAIMS[p]
        checks.append({"property":p,"quick_cmd":f"python3 run.py {p} quick","thorough_cmd":f"python3 run.py {p} thorough","evidence_file":f"evidence/{p}.json","technique":t,"level":l,"level_note":n})
    else: na.append({"property":p,"reason":m.NA.get(p,"check not built yet; planned with model checking as described in DESIGN.md")})
json.dump({"version":1,"setup_cmd":"python3 run.py setup","checks":checks,"not_applicable":na,"notes":m.NOTES},open("/verif/MANIFEST.json","w"),indent=1)
print(len(checks),len(na))
