#!/usr/bin/env python3
"""How much of a recorded output the specification pins down: corrupt one byte, see whether StreamTrace complains.
Usage: sensitivity.py SEED.  A development tool; prints the corruptions that went unnoticed with their place."""
import sys, json, random, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, props
from gen import *
from run import Run
seed=int(sys.argv[1]); r=Run("C01","quick",seed); r.prop="ZZ"
rng=random.Random(seed)
sc=[rand_scen(rng,f"r{i}",12,meta=0.4) for i in range(200)]
recs=r.execute(sc,("std",))
out=[];info={}
for x in recs:
    for k in range(5):
        d=json.loads(x["line"]); e=d["ev"][-1]
        if e.get("op")!="encode" or not e.get("out"): continue
        o=e["out"]; old=list(o)
        p=rng.randrange(len(o))
        c=rng.random()
        if c<.6: o[p]=o[p]^(1<<rng.randrange(8))
        elif c<.8: del o[p]
        else: o.insert(p,rng.randrange(256))
        if o==old: continue
        e["out"]=o; e["outlen"]=len(o); e["tail"]=o[-2:]
        d["id"]=f"{d['id']}-{k}"
        # find segment
        q=2; seg="SOI"
        while q<p and old[q]==255 and q+4<=len(old):
            m=old[q+1]; seg=f"{m:02X}@{p-q}"
            if m==0xDA: break
            q+=2+old[q+2]*256+old[q+3]
            if q<=p: seg="next"
        info[d["id"]]=(p,seg,c,old[max(0,p-3):p+4],o[max(0,p-3):p+4])
        out.append(dict(x,id=d["id"],line=json.dumps(d,separators=(",",":"))))
CK=['C06','C09','C08','C01'][seed%4]
r.validate(out,"StreamTrace",{"Check":'"'+CK+'"',"Decode":"TRUE","NeedExp":"TRUE"},"sens",view="View",invariant="Anything")
seen=set(n.split(" ")[1] if n.startswith("END") else n.split(" ")[0] for n in r.notices)
miss=[i for i in info if i not in seen]
print(len(out),len(r.notices),"undetected",len(miss))
import collections
for i in miss: print(i,info[i])
r.close()
