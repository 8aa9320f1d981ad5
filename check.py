#!/usr/bin/env python3
"""Decides one property on /repo's current tree.   check.py CXX [--tier quick|thorough] [--only REGEX] [--keep]

Builds LLVM bitcode from /repo, runs the symbolic executor over the property's jobs (jobs.py), replays every counterexample
against a natively compiled build of the same sources, and rewrites evidence/CXX.json."""
import sys,os,re,json,time,subprocess,shutil,tempfile,random
HERE=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,HERE); sys.path.insert(0,os.path.join(HERE,"sx"))
sys.dont_write_bytecode=True
import buildbc, jobs as jobsmod
MEM={"out-of-bounds","use-after-free","double-free","bad-free","null-deref","invalid-pointer","memcpy-overlap","stack-overflow","write-to-constant","bad-alloca","type-confusion"}
UB={"signed-overflow","int-div-zero","unreachable","bad-call"}
REEXEC={"data-race","deadlock","lock-misuse"}
NCPU=os.cpu_count() or 8

def sh(cmd,timeout=None,env=None,cwd=None):
    try:
        r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout,env=env,cwd=cwd)
        return r.returncode,r.stdout.decode("utf8","replace")
    except subprocess.TimeoutExpired as e: return 124,(e.stdout or b"").decode("utf8","replace")

class Native:
    """native builds of /repo, made on demand: plain gcc, or with sanitizers"""
    def __init__(self,work): self.work=work; self.built={}
    FL={"plain":[],"asan":["-fsanitize=address,undefined","-fno-omit-frame-pointer"]}
    def exe(self,kind,mpi=False,pool=False):
        k=(kind,mpi,pool)
        if k not in self.built:
            o=os.path.join(self.work,"native_%s%s%s"%(kind,"_mpi" if mpi else "","_pool" if pool else ""))
            objs=buildbc.build("native",o,mpi,self.FL[kind]+(buildbc.POOL if pool else []))
            if not objs: self.built[k]=None
            else:
                cc=["mpicc"] if mpi else ["gcc","-fopenmp"]
                rc,t=sh(cc+["-rdynamic"]+self.FL[kind]+objs+["-o",o+"/replay","-lm","-ldl"])
                for x in objs: os.unlink(x)
                if rc: sys.stderr.write(t[-2000:])
                self.built[k]=o+"/replay" if rc==0 else None
        return self.built[k]
    def run(self,kind,entry,f,threads=1,timeout=60,mpi=0,more={}):
        x=self.exe("plain" if kind in("valgrind","plain") else kind,bool(mpi),"P pool 1\n" in open(f).read())
        if not x: return 99,"native build failed"
        env=dict(os.environ,OMP_NUM_THREADS=str(threads),ASAN_OPTIONS="detect_leaks=1:allocator_may_return_null=1:exitcode=77",UBSAN_OPTIONS="print_stacktrace=0",LSAN_OPTIONS="exitcode=78",TMPDIR=self.work,**more)
        d=tempfile.mkdtemp(dir=self.work)
        cmd=[x,entry,f]
        if kind=="valgrind": cmd=["valgrind","-q","--error-exitcode=76","--track-origins=no","--leak-check=no"]+cmd
        if mpi:
            env.update(OMPI_ALLOW_RUN_AS_ROOT="1",OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",OMPI_MCA_rmaps_base_oversubscribe="1",OMPI_MCA_btl_vader_single_copy_mechanism="none")
            cmd=["mpirun","--oversubscribe","-n",str(mpi)]+cmd
        r=sh(cmd,timeout,env,d); shutil.rmtree(d,ignore_errors=True); return r

def write_replay(path,job,lines,head):
    with open(path,"w") as o:
        for h in head: o.write("# "+h.replace("\n"," ")+"\n")
        for k,v in job["params"].items(): o.write("P %s %d\n"%(k,v))
        o.write(lines if lines.endswith("\n") or not lines else lines+"\n")

def confirm(nat,job,v,path,symx,bc,jf,mpi):
    """does the real code show it? -> (bool, how)"""
    kind=v["kind"]; thr=job["params"].get("threads",1)
    m=job["params"].get("procs",1) if mpi else 0
    if kind in REEXEC or job["params"].get("engineonly"):
        rc,t=sh([symx,bc,jf,"/dev/null","--path",str(job["index"]),v["path"]],300)
        return (kind+":" in t, "re-executed the schedule symbolically (decision string in the replay file)")
    if kind=="assert":
        rc,t=nat.run("plain",job["entry"],path,thr,60,m)
        ok=("SXFAIL assert|"+v["msg"]+"|") in t
        if not ok and ("SXEXIT unexpected" in t or rc<0 or rc in(134,136,139)): ok=True
        if not ok:
            rc,t=nat.run("asan",job["entry"],path,thr,60,m); ok=("SXFAIL assert|"+v["msg"]+"|") in t or "ERROR: AddressSanitizer" in t
        if not ok and "SXFAIL" in t: ok=True
        if not ok:
            rc,t=nat.run("plain",job["entry"],path,thr,60,m,dict(SX_STRICT=v["msg"])); ok=("SXFAIL assert|"+v["msg"]+"|") in t
        return ok,"native run of the real library"
    if kind in("unexpected-exit","assertion-failed"):
        rc,t=nat.run("plain",job["entry"],path,thr,60,m); return ("SXEXIT unexpected" in t or "Assertion" in t or rc in(-6,134)),"native run of the real library"
    if kind=="leak":
        rc,t=nat.run("asan",job["entry"],path,thr,60,m); return ("SXFAIL leak" in t or "LeakSanitizer" in t),"native run under LeakSanitizer"
    if kind in MEM or kind in UB:
        rc,t=nat.run("asan",job["entry"],path,thr,60,m)
        if "AddressSanitizer" in t or "runtime error" in t: return True,"native run under AddressSanitizer/UBSan"
        rc,t=nat.run("valgrind",job["entry"],path,thr,120,m)
        return ("Invalid" in t or "uninitialised" in t or rc==76 or rc<0),"native run under valgrind"
    if kind=="uninitialised":
        rc,t=nat.run("valgrind",job["entry"],path,thr,120,m); return ("uninitialised" in t or rc==76),"native run under valgrind"
    if kind=="nontermination":
        rc,t=nat.run("plain",job["entry"],path,thr,20,m); return rc==124,"native run does not return"
    rc,t=nat.run("asan",job["entry"],path,thr,60,m)
    return (rc!=0),"native run"

def load_known():
    out=[]
    p=os.path.join(HERE,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l=l.strip()
            if l.startswith("known:"):
                m=re.match(r"known:\s+property=(\S+)\s+(\{.*?\})\s+::\s+(.*)$",l)
                if m: d=json.loads(m.group(2)); d["property"]=m.group(1); d["what"]=m.group(3); out.append(d)
    return out
def matches(k,pid,job,v):
    if k["property"]!=pid: return False
    if "entry" in k and not re.fullmatch(k["entry"],job["entry"]): return False
    for a in("kind","msg","where"):
        if a in k and not re.search(k[a],v[a]): return False
    for p,val in k.get("params",{}).items():
        x=job["params"].get(p,0)
        if x not in (val if isinstance(val,list) else [val]): return False
    return True

def main():
    pid=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick"); only=None; keep=False
    a=sys.argv[2:]
    while a:
        x=a.pop(0)
        if x=="--tier": tier=a.pop(0)
        elif x=="--only": only=a.pop(0)
        elif x=="--keep": keep=True
    seed=int(os.environ.get("VERIF_SEED","1") or 1); t0=time.time()
    spec=jobsmod.get(pid,tier)
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True); os.makedirs(os.path.join(HERE,"build"),exist_ok=True)
    rdir=os.path.join(HERE,"build","replay"); os.makedirs(rdir,exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid+"-"): os.unlink(os.path.join(rdir,f))
    rc,t=sh([os.path.join(HERE,"sx/build.sh")],600)
    if rc: print("engine build failed\n"+t); return 2
    symx=os.path.join(HERE,"build/symx")
    work=tempfile.mkdtemp(prefix="work.%s."%pid,dir=os.path.join(HERE,"build"))
    try:
        groups={}
        for j in spec["jobs"]:
            if only and not re.search(only,j["name"]): continue
            groups.setdefault(2 if j["params"].get("pool") else 1 if j.get("mpi") else 0,[]).append(j)
        results=[]; nat=Native(work); budget=spec.get("budget",45 if tier=="quick" else 780); wall={}
        tot=sum(len(g) for g in groups.values())
        # paths re-run natively: drawn from a seeded sample of the jobs
        allj=[j for g in groups.values() for j in g]; pick=set(id(j) for j in random.Random(seed).sample(allj,min(len(allj),spec.get("nsamples",40)+10)))
        for j in allj:
            if id(j) not in pick: j["samples"]=0
        for mpi,js in sorted(groups.items()):
            bc=buildbc.build("bc",os.path.join(work,"bc%d"%mpi),mpi==1,buildbc.POOL if mpi==2 else ())
            if not bc: print("bitcode build of /repo failed"); return 2
            jf=os.path.join(work,"jobs%d"%mpi); of=os.path.join(work,"out%d.json"%mpi)
            with open(jf,"w") as o:
                for j in js: o.write("|".join([j["name"],j["entry"],str(j.get("limit",1e9)),str(j.get("maxpaths",10**7)),str(j.get("samples",1)),",".join("%s=%d"%kv for kv in j["params"].items())])+"\n")
            rc,t=sh([symx,bc,jf,of,"--workers",str(NCPU),"--budget",str(budget*len(js)/max(1,tot))],budget*3+120)
            if rc not in(0,3) or not os.path.exists(of): print("symbolic executor failed rc=%d\n%s"%(rc,t[-3000:])); return 2
            d=json.load(open(of)); results.append((mpi==1,bc,jf,d))
        return report(pid,tier,seed,spec,results,nat,symx,rdir,t0,rc)
    finally:
        if not keep: shutil.rmtree(work,ignore_errors=True)

def report(pid,tier,seed,spec,results,nat,symx,rdir,t0,rcx):
    known=load_known(); knownHit={}; viol=[]; unconf=[]; nval=0; badval=[]; rng=random.Random(seed)
    ign=set(spec.get("ignore",[]))
    S=dict(paths=0,steps=0,queries=0,solver_calls=0,obligations=0,by_solver=0,by_normal_form=0,undecided=0,unsupported=0,leftover=0,forks=0,unknown=0,infeasible=0,error_exits=0); st=0.0
    funcs=set(); covers={}; notes={}; samples=[]; complete=0; dead=[]; jl=[]
    if sum(d["crashed"] for _,_,_,d in results): notes["engine worker crashed"]=sum(d["crashed"] for _,_,_,d in results)
    for mpi,bc,jf,d in results:
        for j in d["jobs"]:
            for k in S: S[k]+=j.get(k,0)
            st+=j["solver_time"]; funcs.update(j["functions"])
            for k,v in j["covers"].items(): covers[k]=covers.get(k,0)+v
            for k,v in j["notes"].items(): notes[k]=notes.get(k,0)+v
            if j["leftover"]==0 and j["unsupported"]==0 and j["undecided"]==0: complete+=1
            if j["unsupported"] and j["unsupported"]>=j["paths"]: dead.append(j["name"])
            jl.append(dict(name=j["name"],paths=j["paths"],obligations=j["obligations"],solver_calls=j["solver_calls"],solver_s=round(j["solver_time"],2),cpu_s=round(j["cpu"],2),leftover=j["leftover"],unsupported=j["unsupported"]))
    # counterexamples
    byKey={}
    for mpi,bc,jf,d in results:
        for j in d["jobs"]:
            for v in j["violations"]:
                if v["kind"] in ign: continue
                k=next((k for k in known if matches(k,pid,j,v)),None)
                if k: knownHit.setdefault(k["what"],0); knownHit[k["what"]]+=1; continue
                byKey.setdefault((v["kind"],v["msg"],v["where"].split("@")[-1] if v["kind"]!="assert" else ""),[]).append((mpi,bc,jf,j,v))
    n=0
    for key,lst in sorted(byKey.items()):
        lst.sort(key=lambda x:len(x[4]["inputs"])); done=False
        for mpi,bc,jf,j,v in lst[:4]:
            path=os.path.join(rdir,"%s-%d.txt"%(pid,n))
            write_replay(path,j,v["inputs"],["property %s  job %s  entry %s"%(pid,j["name"],j["entry"]),"%s: %s at %s %s"%(v["kind"],v["msg"],v["where"],v["detail"]),"decisions "+v["path"],"stack "+" < ".join(v["stack"]),"replay with: tools/replay.sh "+path])
            ok,how=confirm(nat,j,v,path,symx,bc,jf,mpi)
            if ok:
                n+=1; done=True; viol.append(dict(kind=v["kind"],msg=v["msg"],where=v["where"],detail=v["detail"],job=j["name"],replay=path,confirmed_by=how)); break
        if not done:
            mpi,bc,jf,j,v=lst[0]; unconf.append(dict(kind=v["kind"],msg=v["msg"],where=v["where"],job=j["name"],detail=v["detail"],inputs=v["inputs"]))
            try: os.unlink(path)
            except OSError: pass
    # the engine's own account of sampled paths against the native library
    cand=[(mpi,j,s) for mpi,bc,jf,d in results if not mpi for j in d["jobs"] for s in j["samples"] if not j["params"].get("engineonly")]
    rng.shuffle(cand); cand=cand[:spec.get("nsamples",40)]
    for mpi,j,s in cand:
        f=os.path.join(nat.work,"sample.txt"); write_replay(f,j,s,[])
        rc,t=nat.run("plain",j["entry"],f,j["params"].get("threads",1))
        if rc==99: break
        exp="X error-exit" in s
        good=("SXOBSDIFF" not in t and "SXFAIL" not in t and (("SXEXIT" in t) if exp else ("SXDONE" in t)))
        if "SXFAIL" in t and any(v["job"]==j["name"] for v in viol): good=True
        if good: nval+=1
        else: badval.append(dict(job=j["name"],inputs=s[:600],native=t[-600:]))
    for mpi,j,s in cand[:3]: samples.append(dict(job=j["name"],entry=j["entry"],params=j["params"],path_inputs_and_observations=s[:800]))
    if not samples:
        for mpi,bc,jf,d in results:
            for j in d["jobs"][:3]: samples.append(dict(job=j["name"],entry=j["entry"],params=j["params"],paths=j["paths"]))
    wall=time.time()-t0
    ev=dict(property=pid,tier=tier,seed=seed,level="model_checking",wall_s=round(wall,2),violations=len(viol),
      coverage=dict(states=S["paths"],transitions=S["steps"],traces_validated_against_impl=nval,samples=samples,
        states_meaning="feasible symbolic execution paths of the harness over the real code, each covering all input values satisfying its path condition",
        transitions_meaning="LLVM instructions executed symbolically",
        functions_encoded=sorted(funcs),functions_encoded_count=len(funcs),
        bounds=spec["bounds"],jobs=len(jl),jobs_explored_completely=complete,
        solver_queries=S["solver_calls"],branch_queries=S["queries"],solver_time_s=round(st,2),obligations=S["obligations"],obligations_discharged_by_solver=S["by_solver"],obligations_discharged_by_normal_form_rechecked_by_solver=S["by_normal_form"],
        undecided_obligations=S["undecided"],solver_unknown=S["unknown"],unsupported_paths=S["unsupported"],unexplored_prefixes=S["leftover"],infeasible_paths=S["infeasible"],
        cover_points=covers,notes=notes,unconfirmed_counterexamples=unconf,trace_mismatches=badval,known_findings=knownHit,per_job_listed="the 600 most expensive of %d jobs"%len(jl) if len(jl)>600 else "all jobs",per_job=sorted(jl,key=lambda x:-x["cpu_s"])[:600],exhaustive=False),
      assumptions=spec["assumptions"])
    if viol: ev["coverage"]["counterexamples"]=viol
    ef=os.path.join(HERE,"evidence",pid+".json")
    with open(ef+".tmp","w") as o: o.write(json.dumps(ev,indent=1))
    os.replace(ef+".tmp",ef)
    print("%s %s: %d jobs (%d complete), %d paths, %d obligations, %d solver queries (%.1fs), %d native traces agree, %d unconfirmed, %d unsupported, %d leftover, %.1fs"%(pid,tier,len(jl),complete,S["paths"],S["obligations"],S["solver_calls"],st,nval,len(unconf),S["unsupported"],S["leftover"],wall))
    for u in unconf: print("unconfirmed (not reported): %s | %s | %s | %s"%(u["kind"],u["msg"],u["where"],u["job"]))
    for b in badval[:5]: print("trace mismatch: %s\n%s"%(b["job"],b["native"][-300:]))
    for w,c in sorted(knownHit.items()): print("KNOWN-FINDING: property=%s %s"%(pid,w))
    for v in viol: print("  %s | %s | %s | %s | job %s"%(v["kind"],v["msg"],v["where"],v["detail"][:200],v["job"])); print("VIOLATION property=%s replay=%s"%(pid,v["replay"]))
    if viol: return 1
    if dead and len(dead)==len(jl): print("no job could be executed: "+"; ".join(list(notes)[:3])); return 2
    return 0
if __name__=="__main__": sys.exit(main())
