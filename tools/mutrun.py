#!/usr/bin/env python3
"""mutrun.py WORKERS SECONDS SEED [FILE...]   development tool (no check uses it): plants single-point mutations
of /repo's files in scratch clones, discards what does not build or fails the stable tests, runs the checks of the
properties the file matters to, and appends to /tmp/mut/log.tsv: file, index, line, kind, text, CAUGHT:<id> or SURVIVED."""
import sys,os,subprocess,random,threading,time,shutil,queue
MAP={
"axolotl/session.go":"C01 C06 C02 C03 C05 C08 C04 C11","axolotl/ratchet.go":"C01 C06 C08 C04","axolotl/messages.go":"C01 C03 C04 C02",
"axolotl/crypto.go":"C28 C01 C04","axolotl/keys.go":"C04 C06 C01","axolotl/prekeys.go":"C17 C06 C04",
"store.go":"C10 C09 C07 C11 C17 C24","crypto.go":"C28 C09 C14 C22 C18","curve25519sign/curve25519sign.go":"C12",
"fingerprint/fingerprint.go":"C13","fingerprint/fingerprint_numbers.go":"C13","fingerprint/qr_fingerprint.go":"C13",
"attachments.go":"C14 C25 C27","server.go":"C15 C27 C22 C17 C20 C28","prekeys.go":"C17 C15","sync.go":"C25 C26 C15",
"sender.go":"C15 C26 C25 C18","textsecure.go":"C26 C16 C15 C17 C24 C18","websocket.go":"C16","handler.go":"C26 C16","message.go":"C26 C15 C14",
"groups.go":"C18 C26 C25","groupsv2/groupsv2.go":"C18 C26 C27","groupsv2/groupActions.go":"C18 C26","groupsv2/decrypt.go":"C18 C26",
"groupsv2/groupsv2api.go":"C18 C27","groupsv2/credentials.go":"C18 C27","groupsv2/helpers.go":"C18","groupsv2/createGroupChange.go":"C18",
"contactDiscoveryCrypto/contactDiscoveryCrypto.go":"C20","contactsDiscovery/remoteAttestationUtil.go":"C20","contactsDiscovery/quote.go":"C20",
"profiles/profile.go":"C21 C27","profiles/avatars.go":"C21 C27","crypto/aesgcm.go":"C21 C28","unidentifiedAccess/unidentifiedAccess.go":"C21 C27",
"crayfish/backend.go":"C23","crayfish/envelope.go":"C23","crayfish/avatar.go":"C23","crayfish/register.go":"C23","crayfish/messages.go":"C23",
"config.go":"C24","contacts/contacts.go":"C24 C20 C25","transport/transport.go":"C27 C15","transport/credentials.go":"C27","transport/unidentifiedCert.go":"C27",
"link.go":"C22","groupsv2/groupChange.go":"C19","groupsv2/groupAuth.go":"C19","entities/groupUser.go":"C19","utils/utils.go":"C18",
}
def env(): return dict(os.environ,HOME="/root",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",CGO_ENABLED="1",PATH="/usr/local/go/bin:"+os.environ["PATH"])
W=int(sys.argv[1]); END=time.time()+float(sys.argv[2]); random.seed(int(sys.argv[3])); files=sys.argv[4:] or sorted(MAP)
os.makedirs("/tmp/mut",exist_ok=True)
done=set()
if os.path.exists("/tmp/mut/log.tsv"):
    for l in open("/tmp/mut/log.tsv"):
        a=l.split("\t"); done.add((a[0],a[4],a[2]))
jobs=[]
for f in files:
    for l in subprocess.run(["/tmp/mutate","/repo/"+f],capture_output=True,text=True,check=True).stdout.splitlines():
        i,ln,k,t=l.split("\t",3)
        if (f,t,ln) in done: continue
        jobs.append((f,int(i),ln,k,t))
random.shuffle(jobs)
# no file dominates: round robin
by={}
for j in jobs: by.setdefault(j[0],[]).append(j)
order=[]
import math
for f,js in by.items():
    for n,j in enumerate(js): order.append((n/len(js)+random.random()*1e-6,j))
order.sort(); q=queue.Queue()
for _,j in order: q.put(j)
lock=threading.Lock()
def worker(w):
    wt="/tmp/mut/repo%d"%w; vf="/tmp/mut/verif%d"%w
    for d in (wt,vf): shutil.rmtree(d,ignore_errors=True)
    subprocess.check_call(["git","clone","-q","/repo",wt])
    os.makedirs(vf)
    for d in ("bin","harness","checks.json","KNOWN_FINDINGS"): subprocess.check_call(["cp","-a","/verif/"+d,vf+"/"])
    os.makedirs(vf+"/evidence",exist_ok=True)
    zk=subprocess.run(["go","list","-m","-f","{{.Dir}}","github.com/nanu-c/zkgroup"],cwd=wt,env=env(),capture_output=True,text=True).stdout.strip()
    e=env(); e["LD_LIBRARY_PATH"]=zk+"/lib"
    while time.time()<END:
        try: f,i,ln,k,t=q.get_nowait()
        except queue.Empty: return
        src=subprocess.run(["/tmp/mutate","/repo/"+f,str(i)],capture_output=True).stdout
        orig=open(wt+"/"+f,"rb").read(); res=None
        open(wt+"/"+f,"wb").write(src)
        try:
            r=subprocess.run(["go","build","./..."],cwd=wt,env=e,capture_output=True,text=True)
            if r.returncode: res="NOBUILD"
            else:
                try: r=subprocess.run(["go","test","-vet=off",".","./contactDiscoveryCrypto","./curve25519sign","./fingerprint"],cwd=wt,env=e,capture_output=True,text=True,timeout=60)
                except subprocess.TimeoutExpired: res="TESTFAIL"
                if res is None and r.returncode: res="TESTFAIL"
            if res is None:
                for c in MAP[f].split():
                    e2=dict(e); e2["VERIF_REPO"]=wt
                    try: r=subprocess.run([vf+"/bin/check",c],env=e2,capture_output=True,text=True,timeout=400)
                    except subprocess.TimeoutExpired: res="TIMEOUT:"+c; break
                    if r.returncode==1 and "VIOLATION property="+c in r.stdout: res="CAUGHT:"+c; break
                    if r.returncode!=0: res="NOANSWER:"+c+" "+(r.stdout+r.stderr)[-200:].replace("\n"," ").replace("\t"," "); break
                else: res="SURVIVED"
        finally:
            open(wt+"/"+f,"wb").write(orig)
        with lock:
            open("/tmp/mut/log.tsv","a").write("\t".join([f,str(i),ln,k,t,res])+"\n")
ts=[threading.Thread(target=worker,args=(w,)) for w in range(W)]
for t in ts: t.start()
for t in ts: t.join()
