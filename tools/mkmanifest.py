#!/usr/bin/env python3
import json, os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
meta=json.load(open(H+"/harness/meta.json"))
checks=[];na=[]
for l in open(H+"/properties.jsonl"):
    q=json.loads(l); i=q["id"]
    if os.path.exists(f"{H}/harness/{i}.c"):
        checks.append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"python3 check.py {i} --thorough","evidence_file":f"evidence/{i}.json",
          "technique":"stateless model checking of the real code: exhaustive enumeration of all bounded inputs/operation sequences/faults with a reference model compared at every step",
          "level":"model_checking","level_note":"Exhaustive within the bounds: "+meta.get(i,{}).get("bounds","see DESIGN.md")+". Trusts the reference model in the harness, the stated floating-point tolerances, gcc/ASan and LAPACK."})
    else: na.append({"property":i,"reason":"explorer not built yet"})
json.dump({"version":1,"setup_cmd":"python3 check.py C14 --build-only","checks":checks,"not_applicable":na,
  "notes":"No hooks in /repo. check.py compiles every c3/*/*.c of /repo's working tree (content-addressed object cache in .build)."},open(H+"/MANIFEST.json","w"),indent=1)
