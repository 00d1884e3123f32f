"""camp.py SCENARIO SECONDS OUT FILE[:from-to]... [--props A,B] [--step k]  run all mutants, 8 at a time"""
import sys,subprocess,os,concurrent.futures as cf,tempfile,threading,json
H=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,H)
args=sys.argv[1:]; props=[]; step=1; W=8; V="/verif"
def opt(n,d):
    global args
    if n in args:
        i=args.index(n); v=args[i+1]; args=args[:i]+args[i+2:]; return v
    return d
props=opt("--props","").split(",") if "--props" in args else []
step=int(opt("--step","1")); W=int(opt("--w","8")); V=opt("--v","/verif"); filt=opt("--grep","")
scn,secs,out=args[:3]; files=args[3:]
import importlib
jobs=[]
for f in files:
    lo,hi=0,10**9
    if ":" in f: f,r=f.split(":"); lo,hi=map(int,r.split("-"))
    p=os.environ.get("CAMP_SRC") or "/repo/"+f
    if f.endswith(".py"): from mutpy import mutants
    else: from mutc import mutants
    for k,(d,t) in enumerate(mutants(open(p).read())):
        ln=int(d.split()[0][1:])
        if lo<=ln<=hi and k%step==0 and filt in d: jobs.append((f,k,d,t))
print(len(jobs),"mutants"); sys.stdout.flush()
o=open(out,"w"); lock=threading.Lock()
def run(j):
    f,k,d,t=j
    tf=tempfile.mktemp(suffix=".mut"); open(tf,"w").write(t)
    bd=tempfile.mkdtemp(prefix="mutb")
    sh=f"mount --bind {tf} /repo/{f} && "
    if scn in("shim_rt","kernel","cppquad"): sh+=f"cp -a {V}/build/. {bd}/ 2>/dev/null; mount --bind {bd} {V}/build && "
    sh+=f". /opt/vp/env.sh; cd {V}; PYTHONHASHSEED={k%7} PYTHONDONTWRITEBYTECODE=1 exec $PY {H}/run1.py {scn} {secs} {' '.join(props)}"
    try:
        p=subprocess.run(["unshare","-m","bash","-c",sh],capture_output=True,text=True,timeout=float(secs)*3+240,env=dict(os.environ,VDIR=V))
        r=[l for l in p.stdout.splitlines() if l.startswith(("KILLED","SURVIVED"))]
        r=r[-1] if r else "ERROR "+(p.stdout+p.stderr)[-300:].replace("\n"," | ")
    except subprocess.TimeoutExpired: r="TIMEOUT"
    os.unlink(tf); subprocess.run(["rm","-rf",bd])
    with lock:
        o.write(f"{f} #{k} {d} => {r}\n"); o.flush()
    return r
with cf.ThreadPoolExecutor(W) as ex: rs=list(ex.map(run,jobs))
print("killed",sum(r.startswith("KILLED") for r in rs),"survived",sum(r.startswith("SURV") for r in rs),"other",sum(not r.startswith(("KILLED","SURV")) for r in rs))
