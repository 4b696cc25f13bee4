#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : builds the simulator from /repo's tree, runs seeded simulations, reports.
Exit 0: held on everything explored. Exit 1 + 'VIOLATION property=<id> replay=<path>': violated (replayable, minimised)."""
import json, os, subprocess, sys, time, shutil, threading, queue
V=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,V)
import build as B
from plan import PLAN, COMPONENTS, ASSUMPTIONS
ENV=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:max_malloc_fill_size=65536:detect_container_overflow=1", LC_ALL="C")
ENV.pop("SIM_NOREEXEC",None)
NPROC=8
def run(cmd,timeout=120):
    try: return subprocess.run(cmd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=timeout)
    except subprocess.TimeoutExpired: return None
def die(msg): print("ERROR: "+msg); sys.exit(2)
def main():
    if sys.argv[1]=="--setup":   # nothing to prepare: every check builds from /repo's tree; verify the toolchain is there
        for x in ("g++","cmake","ninja"):
            if not shutil.which(x): die(x+" not found")
        for d in ("build","evidence","replays"): os.makedirs(V+"/"+d,exist_ok=True)
        print("setup ok"); return
    prop=sys.argv[1]; tier=(sys.argv[2] if len(sys.argv)>2 else os.environ.get("VERIF_TIER","quick"))
    seed=int(os.environ.get("VERIF_SEED","1")); t0=time.time()
    plan=PLAN[prop]
    try: bins=B.build(plan["files"],cov=plan.get("cov",False),init=not plan.get("raw",False),ginac=plan.get("ginac",False))
    except B.BuildError as e: die("build failed: %s"%e)
    tb=time.time()-t0
    out=f"{V}/build/out_{prop}_{os.getpid()}"; shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    jobs=[]
    per=plan["cases"][tier]; budget=plan["budget"][tier]; chunk=plan.get("chunk",{}).get(tier,max(1,per//8))
    for start in range(0,per,chunk):
        for scen,cfgs in plan["scenarios"]:
            for cfg in cfgs:
                for b in bins: jobs.append((scen,b,cfg,start,min(chunk,per-start)))
    q=queue.Queue(); [q.put(j) for j in jobs]
    res=[]; fails=[]; lock=threading.Lock(); stop=threading.Event(); tend=time.time()+budget
    def worker():
        while not stop.is_set():
            try: j=q.get_nowait()
            except queue.Empty: return
            left=tend-time.time()
            if left<=1: return
            scen,b,cfg,start,n=j; pre=f"{out}/{scen}_{b}_{cfg}_{start}"
            r=run([bins[b],"run",scen,str(seed),str(cfg),str(start),str(n),"%.1f"%left,pre],timeout=left+150)
            st=None
            try: st=json.load(open(pre+".stat"))
            except Exception: pass
            with lock:
                if st: res.append((j,st))
                if r is None or r.returncode!=0:
                    stop.set()
                    if st and st["bad"]: fails.append((j,pre+".fail",st["cls"],st["msg"],st["badidx"]))
                    else:
                        import struct
                        try: idx=struct.unpack("<Q",open(pre+".cur","rb").read(8))[0]
                        except Exception: idx=None
                        fails.append((j,None,"crash","" if r is None else (r.stderr or b"").decode("latin1")[:6000],idx))
    ths=[threading.Thread(target=worker) for _ in range(NPROC)]; [t.start() for t in ths]; [t.join() for t in ths]
    # ---- determinism sample: same seeds in fresh processes with a different batch alignment must give identical event hashes
    det=dict(cases=0,mismatches=0)
    if not fails:
        dn=plan.get("det",{}).get(tier,16)
        for scen,cfgs in plan["scenarios"]:
            for cfg in cfgs:
                for b in bins:
                    a=run([bins[b],"hashes",scen,str(seed),str(cfg),"0",str(dn)],timeout=300); c=run([bins[b],"hashes",scen,str(seed),str(cfg),str(dn//2),str(dn-dn//2)],timeout=300)
                    if a is None or c is None: continue
                    da=dict(l.split(" ",1) for l in a.stdout.decode().split("\n") if l); dc=dict(l.split(" ",1) for l in c.stdout.decode().split("\n") if l)
                    for k in dc: det["cases"]+=1; det["mismatches"]+= da.get(k)!=dc[k]
    viol=None; errs=[]
    for (j,f,cls,msg,idx) in fails:
        scen,b,cfg,start,n=j
        if not isinstance(f,str):
            if idx is None: errs.append("worker died before its first case: "+msg[-400:]); continue
            fn=f"{out}/crash_{scen}_{b}_{cfg}_{idx}"; run([bins[b],"make",scen,str(seed),str(cfg),str(idx),fn],timeout=120); f=fn
        # gate: the recorded run must fail again in a fresh process, with the same class and event hash
        def rep(p):
            r=run([bins[b],"replay",p],timeout=120)
            if r is None: return ("hang","")
            o=r.stdout.decode("latin1"); l=[x for x in o.split("\n") if x.startswith("RESULT ")]
            if r.returncode==0: return ("held",l[0] if l else "")
            if r.returncode==10: return (l[0].split()[1],l[0])
            return ("crash",str(r.returncode))
        a1=rep(f); a2=rep(f)
        if a1[0]=="held" and idx is not None:   # needs what earlier runs of the process left behind: replay the run sequence
            back=1
            while True:
                hp=f"{out}/hist"; open(hp,"w").write(f"prop {scen}\nconfig {cfg}\nhist {seed} {max(start,idx-back)} {idx}\n")
                a1=rep(hp); a2=rep(hp)
                if a1[0]!="held" or idx-back<=start: break
                back*=2
            if a1[0]!="held" and a1==a2:
                os.makedirs(V+"/replays",exist_ok=True); rp=f"{V}/replays/{prop}_{scen}_{b}.replay"; shutil.copy(hp,rp)
                with open(rp,"a") as fh: fh.write(f"# violation class={a1[0]} : {msg[:800]}\n# backend {b} seed {seed}\n")
                viol=(rp,a1,msg[:800],b,msg); break
        if a1[0]=="held" or a1!=a2: errs.append(f"{scen} {b} cfg{cfg}: run failed ({cls}) but its replay gave {a1} / {a2}"); continue
        os.makedirs(V+"/replays",exist_ok=True); rp=f"{V}/replays/{prop}_{scen}_{b}.replay"
        r=run([bins[b],"shrink",f,rp,str(plan.get("shrink",30))],timeout=300)
        if r is None or r.returncode!=0: shutil.copy(f,rp)
        m1=rep(rp); m2=rep(rp)
        if m1[0]!=a1[0] or m1!=m2: shutil.copy(f,rp); m1=a1
        with open(rp,"a") as fh: fh.write(f"# backend {b} seed {seed} ; replay: python3 /verif/replay.py {rp}\n"); fh.write("".join("# stderr: "+x+"\n" for x in msg.split("\n")[:40]) if m1[0]=="crash" else "")
        viol=(rp,m1,(r.stdout.decode("latin1") if r else "")[:1500],b,msg); break
    # ---- evidence
    stats={}; shapes=set(); tot=dict(done=0,events=0,choices=0); simt=0.0; wall=0.0; perb={}
    for (j,st) in res:
        tot["done"]+=st["done"]; tot["events"]+=st["events"]; tot["choices"]+=st["choices"]; simt+=st["simtime"]; wall+=st["wall"]
        for k,v in st["stats"].items(): stats[k]=stats.get(k,0)+v
        shapes.update(j[0]+j[1]+x for x in st["shapes"]); kk=f"{j[0]}/{j[1]}/config{j[2]}"; perb[kk]=perb.get(kk,0)+st["done"]
    samples=[]
    sc,cf_=plan["scenarios"][0]; fn=f"{out}/sample"; b0=list(bins)[0]
    if not viol and not errs:
        for k in range(12):
            run([bins[b0],"make",sc,str(seed),str(cf_[-1]),str(k),fn]); r=run([bins[b0],"replay",fn,"v"])
            if not r: continue
            tr=[x for x in r.stdout.decode("latin1").split("\n") if x]
            if len(tr)>6: samples.append(dict(scenario=sc,backend=b0,config=cf_[-1],case=k,trace=tr[:30]))
            if len(samples)>=2: break
    el=max(1e-6,time.time()-t0-tb)
    ev=dict(property=prop,tier=tier,seed=seed,level="exploration",wall_s=round(time.time()-t0,2),violations=1 if viol else 0,
      assumptions=ASSUMPTIONS+plan.get("assumptions",[]),
      coverage=dict(evaluations=tot["done"],distinct_nontrivial=len(shapes),rule=plan["rule"]+" Distinct: different sequence of event kinds (deliveries, faults, context switches, checks) per scenario and backend; a run without any event is never counted.",
        samples=samples,runs_per_hour=int(tot["done"]/el*3600),events=tot["events"],choices=tot["choices"],simulated_seconds=round(simt,1),
        faults_injected={k[6:]:v for k,v in sorted(stats.items()) if k.startswith("fault.")},probes={k[6:]:v for k,v in sorted(stats.items()) if k.startswith("probe.")},
        runs_by_scenario=perb,determinism=det,components=COMPONENTS,build_s=round(tb,1),exhaustive=False))
    os.makedirs(V+"/evidence",exist_ok=True); json.dump(ev,open(f"{V}/evidence/{prop}.json","w"),indent=1)
    shutil.rmtree(out,ignore_errors=True)
    if viol:
        rp,m,sh,b,msg=viol
        print(f"property {prop} violated on backend {b}: {m[0]}"); print(sh.strip())
        if m[0]=="crash": print(msg[:1500])
        print(f"VIOLATION property={prop} replay={rp}"); sys.exit(1)
    if errs: die("; ".join(errs))
    if tot["done"]==0: die("no simulated run completed")
    for line in known(prop): print(line)
    print(f"{prop}: held on {tot['done']} simulated runs ({len(shapes)} distinct event histories, {tot['events']} events), build {tb:.0f}s, total {time.time()-t0:.0f}s; determinism sample {det}")
    sys.exit(0)
def known(prop):
    try: k=json.load(open(V+"/known_findings.json"))
    except FileNotFoundError: return []
    return [f"KNOWN-FINDING: property={prop} {e['what']}" for e in k.get("findings",[]) if e["property"]==prop]
if __name__=="__main__": main()
