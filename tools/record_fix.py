#!/usr/bin/env python3
# record_fix.py PROPERTY COMMIT WHAT: note a repaired defect in known_findings.json
import json,os,sys
p=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"known_findings.json")
k=json.load(open(p))
k.append({"property":sys.argv[1],"status":"fixed","what":f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}"})
open(p,"w").write("[\n"+",\n".join(" "+json.dumps(x) for x in k)+"\n]\n")
