#!/usr/bin/env python3
"""applies each planted bug to /repo, runs the check of its property (or the given ones), undoes it. usage: trybug.py [-c CHECK] [ids]"""
import json, os, subprocess, sys
V="/verif"; a=sys.argv[1:]; checks=None
if a[:1]==["-c"]: checks=a[1].split(","); a=a[2:]
m=json.load(open(V+"/MANIFEST.json")); cmd={c["property"]:c["quick_cmd"] for c in m["checks"]}
for i in a or sorted(os.listdir(V+"/seeded")):
    d=f"{V}/seeded/{i}"
    p=json.load(open(d+"/meta.json"))["property"]
    if subprocess.run(["git","-C","/repo","apply",d+"/patch.diff"]).returncode: print(i,"DOES NOT APPLY"); continue
    try:
        for c in (checks or [p]):
            if c not in cmd: print(f"{i} [{c}] not claimed"); continue
            r=subprocess.run(cmd[c],shell=True,cwd=V,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
            l=[x for x in r.stdout.splitlines() if x.strip()]
            print(f"{i} [{c}] rc={r.returncode} {'CAUGHT' if r.returncode==1 else 'MISSED'} :: {l[-1][:160] if l else ''}",flush=True)
    finally:
        subprocess.run(["git","-C","/repo","checkout","--","."])
