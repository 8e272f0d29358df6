#!/usr/bin/env python3
"""overlay.py VERIF OUT ID: writes the go build overlay that adds the harness to /repo
(of the harness for package main, only the files that check ID needs)."""
import json,os,sys
v,out,cid=sys.argv[1],sys.argv[2],sys.argv[3].lower()
need={"c02":["c01"],"c04":["c01","c02","c03"],"c14":["c01","c03"],"c15":["c01"],"c17":["c01","c03"]}
root={"zz_env.go","zz_call.go","zzz_verif.go","zz_%s.go"%cid}|{"zz_%s.go"%x for x in need.get(cid,[])}
R=os.environ.get("VERIF_REPO","/repo")
rep={}
for src,dst in (("vk",R+"/zzverif/vk"),("checks",R+"/zzverif/checks"),("cmd",R+"/zzverif/cmd"),("pt",R+"/zzverif/pt"),
                ("bp",R+"/bulletproofs"),("root",R)):
    d=os.path.join(v,"harness",src)
    for f in sorted(os.listdir(d)):
        if src=="root" and f not in root: continue
        if f.endswith(".go"): rep[os.path.join(dst,f)]=os.path.join(d,f)
json.dump({"Replace":rep},open(out,"w"))
