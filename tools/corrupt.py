#!/usr/bin/env python3
"""Corrupt recorded outputs wildly: every trace must still be evaluated to its end without an error of TLC.
Usage: corrupt.py SEED.  A development tool."""
import sys, json, random, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core, props
from gen import *
from run import Run
seed=int(sys.argv[1]); r=Run("C01","quick",seed); r.prop="ZZ"
rng=random.Random(seed)
sc=[rand_scen(rng,f"r{i}",12,meta=0.4) for i in range(150)]
recs=r.execute(sc,("std",))
out=[]
for x in recs:
    for k in range(6):
        d=json.loads(x["line"]); e=d["ev"][-1]
        if e.get("op")!="encode" or not e.get("out"): continue
        o=e["out"]
        for _ in range(rng.choice([1,1,1,3,10])):
            if len(o)<4: break
            hd=next((i for i in range(len(o)-1) if o[i]==255 and o[i+1]==0xDA),len(o)-1)
            p=rng.randrange(len(o)) if rng.random()<.4 else rng.randrange(max(1,hd+14 if hd+14<len(o) else hd))
            c=rng.random()
            if c<.5: o[p]=rng.choice([0,1,255,128,o[p]^(1<<rng.randrange(8)),rng.randrange(256)])
            elif c<.65: del o[p]
            elif c<.8: o.insert(p,rng.choice([0,255,rng.randrange(256)]))
            elif c<.9: o[p:p+2]=[255,rng.choice([0xC0,0xC1,0xC2,0xC4,0xD0,0xD9,0xDA,0xDB,0xDD,0xFE,0xE0,0xD8,0])]
            else: del o[p:p+rng.randrange(20)]
        if rng.random()<.1: del o[rng.randrange(1,len(o)+1):]
        e["out"]=o; e["outlen"]=len(o); e["tail"]=o[-2:]
        d["id"]=f"{d['id']}-{k}"
        out.append(dict(x,id=d["id"],line=json.dumps(d,separators=(",",":"))))
exp=True; CK=['C06','C15','C18','C08','C09','C13'][seed%6]
def val(part):
    r.validate(part,"StreamTrace",{"Check":'"'+CK+'"',"Decode":"TRUE","NeedExp":str(exp).upper()},"fuzz",view="View",invariant="Anything")
try: val(out); print("OK",len(out))
except core.ToolError as ex:
    print(str(ex)[-2500:])
    json.dump(out,open("/tmp/corrupt-bad.json","w"))
r.close()
