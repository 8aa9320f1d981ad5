#!/usr/bin/env python3
"""writes MANIFEST.json from jobs.SPECS and properties.jsonl"""
import json,os,sys
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,H); sys.dont_write_bytecode=True
import jobs
NA={"C36":"the Fortran interface cannot be encoded: no Fortran front end here produces LLVM IR (gfortran only; no flang), and translating the F90 by hand would not be checking the real code",
 "C37":"the engine interprets floating point as exact reals; an encoding with IEEE rounding error bounds of even a 2x2 product per format is out of reach of the solvers at hand",
 "C38":"the accelerator code paths need device compilers and vendor libraries (CUDA, ROCm, MAGMA, HYPRE) that are not installed, so no IR of them can be produced"}
P=[json.loads(l) for l in open(H+"/properties.jsonl")]
NOTE=getattr(jobs,"LEVEL_NOTE",{})
DEF="Every path of the harness over the LLVM IR of the current sources is executed symbolically; Z3 decides each branch and each assertion for all values within the stated bounds (sizes, patterns as listed in the evidence). Assumes exact real arithmetic, a modelled libc/OpenMP runtime and reference BLAS; counterexamples are replayed on a native build before being reported."
ck=[];na=[]
for p in P:
    i=p["id"]
    if i in jobs.SPECS:
        ck.append(dict(property=i,quick_cmd="./check.py %s --tier quick"%i,thorough_cmd="./check.py %s --tier thorough"%i,technique="symbolic execution of LLVM IR with Z3 (bounded, all values)",level="model_checking",level_note=NOTE.get(i,DEF)))
    else: na.append(dict(property=i,reason=NA.get(i,"not built yet")))
json.dump(dict(version=1,setup_cmd="bash sx/build.sh",checks=ck,not_applicable=na,notes="No hooks in /repo are needed: harnesses call the public API. See DESIGN.md."),open(H+"/MANIFEST.json","w"),indent=1)
print(len(ck),"claimed",len(na),"not applicable")
