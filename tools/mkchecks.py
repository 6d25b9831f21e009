#!/usr/bin/env python3
"""Regenerates checks.json (build/run recipe per check) and MANIFEST.json."""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C={}
def ext(id,libs=("vh","axh"),race=False,run=None,**kw):
    l=id.lower()
    st={"pkg":"verifharness/"+l,"run":run or "Test"+id,"files":{"verifharness/%s/%s_test.go"%(l,l):"%s/%s_test.go"%(l,l)}}
    if race: st["race"]=True
    st.update(kw)
    C.setdefault(id,{"libs":list(libs),"stages":[]})["stages"].append(st)
def root(id,files=(),race=False,run=None,libs=("vh",),**kw):
    l=id.lower()
    fs={"%s_verif_test.go"%l:"root/%s_verif_test.go"%l}
    for f in files: fs["%s_verif_test.go"%f]="root/%s_verif_test.go"%f
    st={"pkg":"","run":run or "TestVerif"+id,"files":fs}
    if race: st["race"]=True
    st.update(kw)
    C.setdefault(id,{"libs":list(libs),"stages":[]})["stages"].append(st)
def inpkg(id,pkg,libs=("vh",),race=False,run=None,files=(),**kw):
    l=id.lower(); d=pkg.replace("/","_")
    fs={"%s/%s_verif_test.go"%(pkg,l):"in_%s/%s_verif_test.go"%(d,l)}
    for f in files: fs["%s/%s_verif_test.go"%(pkg,f)]="in_%s/%s_verif_test.go"%(d,f)
    st={"pkg":pkg,"run":run or "TestVerif"+id,"files":fs}
    if race: st["race"]=True
    st.update(kw)
    C.setdefault(id,{"libs":list(libs),"stages":[]})["stages"].append(st)
exec(open(os.path.join(V,"tools","checks.conf.py")).read())
json.dump(C,open(os.path.join(V,"checks.json"),"w"),indent=1)
props=[json.loads(l) for l in open(os.path.join(V,"properties.jsonl"))]
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in C and i in NOTES:
        tech,note=NOTES[i]
        checks.append({"property":i,"quick_cmd":"bin/check %s"%i,"thorough_cmd":"bin/check %s --tier thorough"%i,
                       "evidence_file":"evidence/%s.json"%i,"technique":tech,"level":C[i].get("level","exploration"),"level_note":note})
    else: na.append({"property":i,"reason":PENDING.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"bin/setup","checks":checks,"not_applicable":na,
   "notes":"Every check builds Go monitors into test binaries over /repo's working tree through 'go test -overlay'; nothing is added to /repo."}
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",len(na),"not applicable")
