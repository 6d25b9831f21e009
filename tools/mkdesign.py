#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED={"c13-order","c25-var","c04-far","c34-avatars"}|set(open(os.path.join(V,"tools","missed.txt")).read().split())
t="| bug | caught by | what it breaks |\n|----|----|----|\n"
for f in sorted(glob.glob(os.path.join(V,"seeded","*","meta.json"))):
    m=json.load(open(f)); i=f.split("/")[-2]
    t+="| %s%s | %s | %s |\n"%(i,"*" if i in MISSED else "",m["property"],m["what_it_breaks"].replace("|","/"))
p=os.path.join(V,"DESIGN.md"); s=open(p).read()
s=re.sub(r"<!-- seeded -->.*<!-- /seeded -->",lambda _:"<!-- seeded -->\n"+t+"<!-- /seeded -->",s,flags=re.S)
open(p,"w").write(s)
