#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT HARNESS WHAT — records a repaired defect in known_findings.json."""
import json,os,sys
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known_findings.json")
d=json.load(open(p)); pr,c,h,w=sys.argv[1:5]
d["findings"].append({"property":pr,"status":"fixed","commit":c,"record":f"fixed: property={pr} {c} {w}","harness":h,"label":".*","what":w})
json.dump(d,open(p,"w"),indent=1); open(p,"a").write("\n")
