#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the //zz: directives and notes.json."""
import json, os, re, glob
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(R+"/properties.jsonl")]
notes=json.load(open(R+"/tools/notes.json"))
dirs={}
for f in glob.glob(R+"/harness/**/*.go",recursive=True):
    for l in open(f):
        m=re.match(r"\s*// ?zz:\s*(\S+)\s+(\S+)",l)
        if m: dirs.setdefault(m[1],[]).append(m[2])
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in dirs and any(t in "qo" for t in dirs[i]):
        checks.append({"property":i,
          "quick_cmd":f"./check.sh check {i} quick",
          "thorough_cmd":f"./check.sh check {i} thorough",
          "technique":"symbolic execution of the real Go code (SSA to SMT bit-vectors, path forking and state merging, z3), bounded; counterexamples replayed natively",
          "level":"model_checking",
          "level_note":notes["level_note"].get(i,"bounded: see the harness directives and DESIGN.md")})
    else:
        na.append({"property":i,"reason":notes["not_applicable"].get(i,"no check has been built for it")})
m={"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
   "notes":"Checks load /repo's current sources, rewrite randomness and hash calls through an overlay (no file of /repo is changed) and execute them symbolically; no hooks are needed in /repo."}
json.dump(m,open(R+"/MANIFEST.json","w"),indent=1)
print(len(checks),"claimed",len(na),"not")
