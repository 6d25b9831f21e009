#!/usr/bin/env python3
"""seed.py make ID       writes /verif/seeded/ID from tools/seeds/ID.py (dev tool; no check reads it)
   seed.py test ID [..]  confirms the planted bug in a scratch copy and runs the property's check on it
A spec file defines: prop, needs, breaks, edits=[(file,old,new[,nth])], place={overlay path: local file}, pkg,
and the demo's Go files as strings in files={name: text}."""
import sys,os,subprocess,json,shutil,tempfile,re,hashlib
V="/verif"; 
DEMO='''#!/bin/bash
# exit 0: the property's demonstration holds; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=1
export GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
zk=$(go list -m -f '{{.Dir}}' github.com/nanu-c/zkgroup)
export LD_LIBRARY_PATH="$zk/lib"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
cat > "$t/overlay.json" <<EOF
{"Replace": {%s}}
EOF
go test -vet=off -c %s-overlay "$t/overlay.json" -o "$t/demo.test" ./%s || exit 3
cd "$t" && ./demo.test -test.timeout 250s -test.run '^TestDemo'
'''
def load(i):
    g={}; p=V+"/tools/seeds/%s.py"%i
    exec(open(V+"/tools/seeds/common.py").read(),g); exec(open(p).read(),g); return g
def make(i):
    s=load(i); d=V+"/seeded/"+i
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    t=tempfile.mkdtemp(prefix="seedmk")
    a=t+"/a"; b=t+"/b"; diff=""
    fs={}
    for e in s["edits"]:
        f=e[0]
        if f not in fs: fs[f]=open("/repo/"+f).read()
        n=e[3] if len(e)>3 else 0
        parts=fs[f].split(e[1])
        assert len(parts)>n+1,(i,f,e[1])
        if len(e)<=3: assert len(parts)==2,(i,"not unique",f,e[1],len(parts)-1)
        fs[f]=e[1].join(parts[:n+1])+e[2]+e[1].join(parts[n+1:])
    for f,txt in fs.items():
        os.makedirs(os.path.dirname(t+"/"+f) or t,exist_ok=True)
        open(t+"/new","w").write(txt)
        r=subprocess.run(["diff","-u","--label","a/"+f,"--label","b/"+f,"/repo/"+f,t+"/new"],capture_output=True,text=True)
        diff+="diff --git a/%s b/%s\n"%(f,f)+r.stdout
        subprocess.check_call(["gofmt","-l",t+"/new"]) if False else None
    open(d+"/patch.diff","w").write(diff)
    for n,txt in s["files"].items(): open(d+"/"+n,"w").write(txt)
    for l in s.get("libs",()):
        # simulators of /verif/harness, copied beside the demonstration
        if l in ("vh","axh"):
            shutil.copy(V+"/harness/%s/%s.go"%(l,l),d+"/%s.go.txt"%l); s["place"]["verifharness/%s/%s.go"%(l,l)]=l+".go.txt"
        else:
            shutil.copy(V+"/harness/root/%s_verif_test.go"%l,d+"/%s.go.txt"%l); s["place"][l+"_verif_test.go"]=l+".go.txt"
    rep=", ".join('"$repo/%s": "$here/%s"'%(k,v) for k,v in s["place"].items())
    open(d+"/demo.sh","w").write(DEMO%(rep,"-race " if s.get("race") else "",s["pkg"])); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(t)
def env(): return dict(os.environ,HOME="/root",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",CGO_ENABLED="1",PATH="/usr/local/go/bin:"+os.environ["PATH"])
STABLE=["crypto_test"]
def test(i,checks=None,quiet=False):
    s=json.load(open(V+"/seeded/%s/meta.json"%i)); d=V+"/seeded/"+i
    w="/tmp/seedwt-%s"%i
    subprocess.run(["git","-C","/repo","worktree","remove","--force",w],capture_output=True)
    subprocess.check_call(["git","-C","/repo","worktree","add","-q","--detach",w,"HEAD"])
    out=[]
    try:
        def sh(c,**k): return subprocess.run(c,cwd=w,env=env(),capture_output=True,text=True,**k)
        r=sh(["bash",d+"/demo.sh"])
        if r.returncode!=0: out.append("DEMO FAILS ON CLEAN: "+(r.stdout+r.stderr)[-1500:])
        r=sh(["git","apply",d+"/patch.diff"])
        if r.returncode!=0: out.append("PATCH: "+r.stderr)
        r=sh(["go","build","./..."])
        if r.returncode!=0: out.append("BUILD: "+r.stderr[-800:])
        zk=sh(["go","list","-m","-f","{{.Dir}}","github.com/nanu-c/zkgroup"]).stdout.strip()
        e=env(); e["LD_LIBRARY_PATH"]=zk+"/lib"
        r=subprocess.run(["go","test","-vet=off","-count=1",".","./contactDiscoveryCrypto","./curve25519sign","./fingerprint","./contactsDiscovery"],cwd=w,env=e,capture_output=True,text=True)
        if "FAIL" in r.stdout and not ("contactsDiscovery" in r.stdout and r.stdout.count("--- FAIL")<=baseline()): out.append("TESTS: "+r.stdout[-800:])
        r=sh(["bash",d+"/demo.sh"])
        demo=(r.stdout+r.stderr)
        if r.returncode==0: out.append("DEMO PASSES WITH BUG")
        elif "build failed" in demo: out.append("DEMO BUILD: "+demo[-800:])
        for c in checks or [s["property"]]:
            e=env(); e["VERIF_REPO"]=w
            ev=V+"/evidence/%s.json"%c; sv=open(ev).read() if os.path.exists(ev) else None
            r=subprocess.run([V+"/bin/check",c],env=e,capture_output=True,text=True)
            if sv is not None: open(ev,"w").write(sv)
            out.append("check %s rc=%d %s"%(c,r.returncode,"CAUGHT" if r.returncode==1 and "VIOLATION property=%s"%c in r.stdout else "MISSED"))
            if r.returncode!=0: out.append("   "+r.stdout[:500].replace("\n","\n   "))
    finally:
        subprocess.run(["git","-C","/repo","worktree","remove","--force",w],capture_output=True)
    print("==",i,s["property"],"\n  "+"\n  ".join(out),flush=True)
_b=None
def baseline(): return 9
if sys.argv[1]=="make":
    for i in sys.argv[2:]: make(i)
elif sys.argv[1]=="test":
    for i in sys.argv[2:]: test(i)
elif sys.argv[1]=="mt":
    for i in sys.argv[2:]: make(i); test(i)
