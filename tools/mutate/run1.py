"""run1.py SCENARIO SECONDS [props..]: simulate until a violation; prints KILLED class msg | SURVIVED n"""
import sys,time,json,os,signal,collections,itertools
V=os.environ.get("VDIR","/verif")
sys.path.insert(0,V); sys.dont_write_bytecode=True
scn_name,secs=sys.argv[1],float(sys.argv[2]); props=sys.argv[3:]
import importlib
from simpy import runner
runner.HANG_S=30
scn=importlib.import_module("scenarios."+scn_name)
CL=scn.CLASSES
props=props or list(CL)
act=set().union(*(CL[p] for p in props))
if hasattr(scn,"setup"): scn.setup(props[0])
t0=time.time(); n=0; oth=collections.Counter()
for i in itertools.count():
    if time.time()-t0>secs: break
    p=props[i%len(props)]
    rs=runner.run_seed_of(1,"mut"+p,i)
    cfg=scn.gen_config_for(rs,p) if hasattr(scn,"gen_config_for") else scn.gen_config(rs)
    res=runner.guarded(scn,rs,cfg,act); n+=1
    if res.get("other"): oth[res["other"]]+=1
    if res["violation"]:
        v=res["violation"]
        own=[q for q in CL if v["class"] in CL[q]]
        print("KILLED",n,round(time.time()-t0,1),v["class"],own,v["msg"][:200].replace("\n"," ")); sys.stdout.flush(); os._exit(0)
print("SURVIVED",n,dict(oth)); sys.stdout.flush(); os._exit(0)
