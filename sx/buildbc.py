#!/usr/bin/env python3
"""Compile /repo's current sources (and the harnesses) to LLVM bitcode, or to native objects.

  buildbc.py bc OUTDIR [--mpi]      -> OUTDIR/bml.bc (linked, sroa'd)
  buildbc.py native OUTDIR [--mpi] [--flags ...] -> OUTDIR/libsx.a of gcc objects
"""
import os,sys,glob,subprocess,hashlib,shutil,time
from concurrent.futures import ThreadPoolExecutor
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("SX_REPO","/repo")
TYPES=["SINGLE_REAL","DOUBLE_REAL","SINGLE_COMPLEX","DOUBLE_COMPLEX"]
COMMON=["-DBML_COMPLEX","-DBML_SYEVD","-DBML_USE_POSIX_MEMALIGN",'-DBML_VERSION="2.4.0"','-DADDR2LINE="/usr/bin/addr2line"',
 "-DHAVE_ADDR2LINE","-DHAVE_BLAS","-DHAVE_LAPACK","-DMALLOC_ALIGNMENT=64",'-DPROJECT_VERSION="2.4.0"',
 "-DGLOBAL_DEBUG=BML_LOG_DEBUG","-D_POSIX_C_SOURCE=200112L"]
for t in "SDCZ":
    for f in ["AXPY","GEMM","GETRF","GETRI","LACPY","SCAL"]:
        COMMON.append("-DC_%s%s=%s%s_"%(t,f,t.lower(),f.lower()))
for t in "SD":
    for f in ["SYEV","SYEVD"]: COMMON.append("-DC_%s%s=%s%s_"%(t,f,t.lower(),f.lower()))
for t in "CZ": COMMON.append("-DC_%sHEEVR=%sheevr_"%(t,t.lower()))
POOL=["-DBML_ELLBLOCK_USE_MEMPOOL"] # job parameter pool=1: the build with CMake's BML_ELLBLOCK_MEMPOOL
MPI=["-DBML_USE_MPI","-DNUMROC=numroc_","-DPCHEEVD=pcheevd_","-DPDSYEVD=pdsyevd_","-DPSSYEVD=pssyevd_","-DPZHEEVD=pzheevd_"]

def sources(mpi):
    ci=os.path.join(REPO,"src/C-interface")
    dirs=["","dense","ellpack","ellblock","csr"]+(["distributed2d"] if mpi else [])
    out=[]
    for d in dirs:
        cm=open(os.path.join(ci,d,"CMakeLists.txt")).read().split()
        cm=set(w.strip('()";') for w in cm)
        for f in sorted(glob.glob(os.path.join(ci,d,"*.c"))):
            if os.path.basename(f) in cm: out.append(f)   # only what the real build compiles
    out+=sorted(glob.glob(os.path.join(REPO,"src/internal-blas/*.c")))
    return out
def jobs(srcs):
    for f in srcs:
        b=os.path.relpath(f,os.path.join(REPO,"src")).replace("/","__")[:-2]
        if f.endswith("_typed.c") or "internal-blas" in f:
            for t in TYPES: yield f,b+"_"+t,["-D"+t]
        else: yield f,b,[]
def run(cmd):
    r=subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    return r.returncode,r.stdout
def build(mode,out,mpi,flags=(),precs=None,nj=8):
    os.makedirs(out,exist_ok=True)
    native = mode=="native"
    if native:
        cc=["mpicc"] if mpi else ["gcc"]
        base=cc+["-std=c99","-w","-g1","-O0"]+(["-I"+os.path.join(VERIF,"harness")]) + ([] if mpi else ["-fopenmp"])+list(flags)
        ext=".o"
    else:
        base=["clang","-std=c99","-w","-O0","-Xclang","-disable-O0-optnone","-gline-tables-only","-emit-llvm","-fno-builtin","-ffp-contract=off",
              "-I"+os.path.join(VERIF,"harness/include")]
        if not mpi: base+=["-fopenmp"]
        base+=list(flags)
        ext=".bc"
    defs=COMMON+(MPI if mpi else [])
    tasks=[]
    for f,b,d in jobs(sources(mpi)):
        o=os.path.join(out,b+ext); tasks.append((base+defs+d+["-c",f,"-o",o],o))
    hdir=os.path.join(VERIF,"harness")
    hs=sorted(glob.glob(os.path.join(hdir,"*.c")))
    for f in hs:
        bn=os.path.basename(f)
        if bn.startswith("native_") and not native: continue
        if bn.startswith("mpi_") and not mpi: continue
        if bn.startswith("serial_") and mpi: continue
        if bn.startswith("bc_") and native: continue
        o=os.path.join(out,"h_"+bn[:-2]+ext)
        tasks.append((base+defs+["-DSX_MPI=%d"%(1 if mpi else 0),"-I"+os.path.join(REPO,"src/C-interface"),"-I"+hdir,"-c",f,"-o",o],o))
    errs=[]
    with ThreadPoolExecutor(nj) as ex:
        for (rc,txt),(cmd,o) in zip(ex.map(lambda t:run(t[0]),tasks),tasks):
            if rc!=0: errs.append(" ".join(cmd[-3:])+"\n"+txt)
    if errs:
        sys.stderr.write("COMPILE FAILED\n"+"\n".join(errs[:5])); return None
    objs=[o for _,o in tasks]
    if native: return objs
    linked=os.path.join(out,"all.bc"); final=os.path.join(out,"bml.bc")
    rc,txt=run(["llvm-link-18"]+objs+["-o",linked])
    if rc!=0: sys.stderr.write(txt); return None
    rc,txt=run(["opt-18","-passes=function(sroa)",linked,"-o",final])
    if rc!=0: sys.stderr.write(txt); return None
    for o in objs+[linked]:
        os.unlink(o)
    return final
if __name__=="__main__":
    t=time.time()
    r=build(sys.argv[1],sys.argv[2],"--mpi" in sys.argv)
    print(r if isinstance(r,str) else (len(r) if r else None),"%.1fs"%(time.time()-t)); sys.exit(0 if r else 1)
