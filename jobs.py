"""The jobs (harness entry + parameters = bounds) of every property."""
import itertools
D,E,B,C=1,2,3,4   # dense, ellpack, ellblock, csr
FN={1:"dense",2:"ellpack",3:"ellblock",4:"csr",5:"distributed2d"}
ASSUME=["values are exact reals: rounding, overflow to infinity and NaN are outside the model",
 "libc, libm, OpenMP runtime (and MPI where used) are modelled; BLAS is a reference implementation compiled with the harness",
 "the bitcode is produced by clang 18 -O0 from the same sources and defines the CMake build uses"]
def expand(entry,mpi=False,limit=None,samples=1,tag="",**kw):
    ks=sorted(kw); out=[]
    for c in itertools.product(*[(kw[k] if isinstance(kw[k],(list,tuple)) else [kw[k]]) for k in ks]):
        p=dict(zip(ks,c))
        j=dict(name=tag+entry[2:]+" "+" ".join("%s=%s"%(k,FN.get(v,v) if k in("fmt","fmt2") else v) for k,v in p.items()),entry=entry,params=p,samples=samples)
        if mpi: j["mpi"]=True
        if limit: j["limit"]=limit
        out.append(j)
    return out
def get(pid,tier):
    s=SPECS[pid](tier); s.setdefault("assumptions",ASSUME); return s
SPECS={}
def spec(pid):
    def d(f): SPECS[pid]=f; return f
    return d
def X(*a,**k): return expand(*a,**k)
BLK={1:[1],2:[11,2],3:[12,21,111],4:[22,13]}
def fm(entry,N=2,fmts=(D,E,B,C),prec=(1,2,3,4),blocks=None,bc=None,bb=None,**kw):
    """entry over formats (with ellblock block structures for N) and precisions; bc overrides parameters for complex
    ellblock matrices (their block norms make the queries harder, so they get fewer patterns or plainer scalars)"""
    o=[]
    for f in fmts:
        k=dict(kw)
        if f==B:
            k["blocks"]=blocks or BLK[N]
            if bb: k.update(bb)
            if bc is not None and any(p>=3 for p in prec):
                o+=X(entry,fmt=f,N=N,prec=[p for p in prec if p>=3],**dict(k,**bc)); pr=[p for p in prec if p<3]
                if pr: o+=X(entry,fmt=f,N=N,prec=pr,**k)
                continue
        o+=X(entry,fmt=f,N=N,prec=list(prec),**k)
    return o
FULL3=0x1ff; FULL4=0xffff; NB="ellblock block structures 1+1 and 2 (N=2), 1+2, 2+1 and 1+1+1 (N=3)"
# zero masks for 3x3 matrices: lower/upper triangle, diagonal only, arrow, cyclic permutation, one empty row, one empty column
U3=(1<<3)|(1<<6)|(1<<7); L3=(1<<1)|(1<<2)|(1<<5); OD3=U3|L3; CYC3=0x1ff&~((1<<1)|(1<<5)|(1<<6)); ARR3=(1<<5)|(1<<7); R3=(1<<3)|(1<<4)|(1<<5); C3=(1<<1)|(1<<4)|(1<<7)
T3=(1<<2)|(1<<3)|(1<<7) # two entries in every row and column
PAT3=[0,U3,L3,OD3,CYC3,ARR3,R3,C3]
QB="N=2: every sparsity pattern (each entry zero or any real); N=3: eight structured patterns with any values (dense, upper, lower, diagonal, cyclic, arrow, empty row, empty column); all four precisions; formats dense, ellpack, ellblock, csr; "+NB
def z4(*pos):
    """zero mask of a 4x4 matrix with entries at the given (row column) pairs only"""
    return FULL4&~sum(1<<(p//10*4+p%10) for p in pos)
def z5(*pos):
    """zero mask of a 5x5 matrix with entries at the given (row column) pairs only"""
    return (1<<25)-1&~sum(1<<(p//10*5+p%10) for p in pos)
def z3(*pos):
    """zero mask of a 3x3 matrix with entries at the given (row column) pairs only"""
    return FULL3&~sum(1<<(p//10*3+p%10) for p in pos)
def more(entry,fmts=(D,E,B,C),mul=0,q=True,wide=1,big=1,tight=(0,2),sc=0,tk={},wk={},**kw):
    """the same entry over other shapes: N=1; rows exactly full (M = entries per row); entries stored in reversed column order
    and with explicit zeros; N=4 with other block structures; rows longer than the initial allocation of a csr row.
    sc: the operation takes scalars; tk/wk: extra parameters of the tight and wide jobs"""
    j=[]; F=dict(pAn=FULL3,pBn=FULL3,pCn=FULL3); k=dict(prec=(2,)); k.update(kw); s1=dict(al=1,be=1) if sc else {}; s5=dict(al=5,be=5) if sc else {}
    j+=fm(entry,N=1,fmts=fmts,**dict(k,prec=[2] if q else [1,2,3,4],**s1))
    ec=[f for f in fmts if f in (E,C)]
    if ec and tight: j+=X(entry,**dict(dict(F,**dict(k,**s1)),**dict(dict(fmt=ec,N=3,M=2,build=list(tight),pAz=T3,pBz=OD3 if mul else T3,pCz=T3),**tk)))
    for m,mb,mc,za,zb,zc in ((3,1,3,ARR3,CYC3,R3),(1,3,2,OD3,OD3,OD3)) if tight and 'pAz' not in tk else (): # operands of different row capacity
        j+=fm(entry,**dict(dict(dict(k,**s5),N=3,fmts=[f for f in fmts if f!=D],blocks=[111],M=m,MB=mb,MC=mc,pAz=za,pBz=zb,pCz=zc),**dict(F,**tk)))
    j+=fm(entry,N=3,fmts=fmts,build=[2,5],pAz=[U3] if q else [U3,CYC3,R3],pBz=[ARR3],pCz=[OD3],bb=dict(pAz=[CYC3,L3],pBz=[OD3],**s5),**dict(F,**dict(k,**s1)))
    P4=dict(psA=4,psB=4,psC=4); P=[(z4(0,3,10,22,31),z4(1,12,20,33),z4(3,10,22,32))]+([] if q else [(z4(0,11,12,23,30,33),z4(2,3,11,30,32),z4(0,11,22,33)),(z4(1,10,23,32),z4(0,1,13,31),z4(0,13,20))])
    for a,b,c in P: j+=fm(entry,N=4,fmts=fmts,blocks=[22,121] if q else [22,13,31,121,112],pAz=a,pBz=b,pCz=c,bb=dict(stale=2) if 'stale' in kw else None,**dict(P4,**dict(k,**s5)))
    # rectangular blocks of 2 and 3 rows; and larger matrices with scattered patterns
    if B in fmts: j+=X(entry,**dict(dict(fmt=B,N=5,blocks=[23] if q else [23,32],pAz=[z5(3,12,31,44),z5(4,20,30,33,42)] if q else [z5(3,12,31,44),z5(4,20,30,33,42),z5(1,13,24,40,41)],pBz=z5(34,12,40,1),pCz=z5(3,13,20,42)),**dict(P4,**dict(dict(k,**s5),**(dict(stale=2) if 'stale' in kw else {})))))
    if big and [f for f in fmts if f!=B]: j+=X(entry,**dict(dict(k,**s5),fmt=[f for f in fmts if f!=B],N=9,sp=[1,2]))
    if wide and C in fmts: j+=X(entry,fmt=C,N=12,wide=[1] if q else [1,6,12],**dict(dict(k,**s5),**wk))
    return j
@spec("C01")
def c01(t):
    j=fm("h_C01",oi=[0,1],oe=[0,1],thr=[0,1],prec=(1,2,3,4))+fm("h_C01",N=3,prec=(2,4),pAz=PAT3,pAn=FULL3,oi=[0,1],oe=[0])+fm("h_C01",N=1,thr=[0,1])
    j+=more("h_C01",oi=[0,1],q=t=="quick")
    if t!="quick": j+=fm("h_C01",N=3,prec=(2,),oi=[0,1],oe=[0,1],thr=[0])+fm("h_C01",N=4,prec=(2,),pAn=0xffff,oi=[0,1],pAz=[0,0x8421,0x5a5a])
    return dict(jobs=j,bounds=QB)
@spec("C02")
def c02(t):
    q=t=="quick"
    j=fm("h_C02",steps=2,thr=0,prec=(2,),pAz=[0b0110,0b1001],pAn=15)+fm("h_C02",steps=1,thr=[0,1],build=[0,5])+fm("h_C02",N=3,steps=1,thr=0,pAn=FULL3,pAz=PAT3,prec=(2,))+fm("h_C02",N=1,steps=2,thr=0,prec=(2,4))
    j+=more("h_C02",steps=1,thr=0,wk=dict(ops=3),q=q)
    if not q: j+=fm("h_C02",steps=2,thr=[0,1],prec=(2,4),build=[0,5])+fm("h_C02",N=3,steps=2,thr=0,prec=(2,),pAn=FULL3,pAz=[U3,CYC3])+fm("h_C02",steps=3,thr=0,prec=(2,),pAz=6,pAn=15)
    return dict(jobs=j,bounds=QB+"; sequences of up to %d assignments (element, new element, row, diagonal; any indices, any values)"%(2 if q else 3))
@spec("C03")
def c03(t):
    q=t=="quick"; j=[]
    for f2 in (D,E,B,C):
        for f in (D,E,B,C):
            for bl in ([11,2] if B in (f,f2) else [0]): j+=X("h_C03",fmt=f,fmt2=f2,N=2,prec=[1,2,3,4],blocks=bl,build=[0,5])
            for bl in ([12,21] if B in (f,f2) else [0]): j+=X("h_C03",fmt=f,fmt2=f2,N=3,prec=2 if q else [2,4],blocks=bl,pAn=FULL3,pAz=PAT3)
    j+=more("h_C03",fmt2=1,q=q)+more("h_C03",fmt2=2,q=q)+more("h_C03",fmt2=4,q=q)+X("h_C03",fmt=[D,E,C],fmt2=3,N=4,blocks=[22,121,13],prec=2,psA=4,pAz=[z4(0,3,10,22,31),z4(1,12,20,33)])+X("h_C03",fmt=[D,E,C],fmt2=3,N=1,blocks=1,prec=[1,2,3,4])
    return dict(jobs=j,bounds=QB+"; all 16 format pairs")
@spec("C04")
def c04(t):
    q=t=="quick"
    j=fm("h_C04",how=[0,2],prec=(1,2,3,4),pAn=15,pAz=[0,6,8])+fm("h_C04",how=1,stale=[0,1,2,3],prec=(2,4),pAn=15,pAz=[0,6,8])+fm("h_C04",how=[0,2],prec=(2,))+fm("h_C04",N=3,how=[0,1,2],stale=[1,2],prec=(2,),pAn=FULL3,pAz=[CYC3,ARR3,U3])
    j+=more("h_C04",how=[0,1,2],stale=1,tk=dict(stale=2),q=q)
    if not q: j+=fm("h_C04",how=[0,1,2],stale=[0,1,2],build=[0,5])+fm("h_C04",N=3,how=[0,1,2],stale=[1,2,3],prec=(1,2,3,4),pAn=FULL3,pAz=PAT3)
    return dict(jobs=j,bounds=QB+"; destination empty, full or partly filled")
@spec("C05")
def c05(t):
    q=t=="quick"
    j=fm("h_C05",how=0,al=1,be=1,pAn=15,pBn=15,pAz=[0,6,9],pBz=[0,5,6],bc=dict(al=3,be=3,pAz=[6,9],pBz=[6]),bb=dict(pAz=[6,9]))+fm("h_C05",how=0,prec=(2,),bb=dict(pAn=9,pBz=9))+fm("h_C05",how=[1,2],thr=[0,1],bc=dict(pAn=15,pAz=[2,5]))+fm("h_C05",how=0,thr=1,prec=(2,4),al=1,be=1,pAn=15,pBn=15,pAz=6,pBz=[0,9],bc=dict(pBz=[7,14],al=3,be=3))+fm("h_C05",how=0,al=[2,3],be=[2,4],prec=(2,),pAn=15,pBn=15,pAz=6,pBz=5)
    j+=more("h_C05",how=[0,1,2],sc=1,q=q)
    j+=fm("h_C05",N=3,how=[0,1,2],al=1,be=1,prec=(2,),pAn=FULL3,pBn=FULL3,pAz=[U3,CYC3],pBz=[L3,ARR3],bb=dict(pAz=[OD3,U3],al=3,be=3))
    if not q: j+=fm("h_C05",how=0,prec=(1,3,4))+fm("h_C05",how=0,thr=1,prec=(2,),al=1,be=1)+fm("h_C05",N=3,how=[0,1,2],al=[1,0],be=[1,2],prec=(2,4),pAn=FULL3,pBn=FULL3,pAz=PAT3,pBz=PAT3)
    return dict(jobs=j,bounds=QB)
@spec("C06")
def c06(t):
    q=t=="quick"
    j=fm("h_C06",fmts=(D,E,B),al=1,be=1,pAn=15,pBn=15,pAz=[0,6,9],pBz=[0,5,6],bc=dict(al=3,be=3,pAz=[6,9],pBz=[6]))+fm("h_C06",fmts=(D,E,B),prec=(2,),bb=dict(pAn=9,pBz=9))+fm("h_C06",fmts=(D,E,B),N=3,al=1,be=1,prec=(2,),pAn=FULL3,pBn=FULL3,pAz=[U3,CYC3],pBz=[L3,ARR3],bb=dict(pAz=[U3,OD3]))+fm("h_C06",fmts=(D,E,B),thr=1,prec=(2,),al=1,be=1,pAn=15,pBn=15,pAz=6,pBz=[0,9])
    j+=more("h_C06",fmts=(D,E,B),sc=1,q=q)
    if not q: j+=fm("h_C06",fmts=(D,E,B),prec=(1,3,4))+fm("h_C06",fmts=(D,E,B),N=3,al=1,be=1,prec=(2,4),pAn=FULL3,pBn=FULL3,pAz=PAT3,pBz=PAT3)
    return dict(jobs=j,bounds=QB+"; csr declares the operation unsupported")
@spec("C07")
def c07(t):
    q=t=="quick"
    j=fm("h_C07",al=0,be=0,pAn=15,pBn=15,pCn=15,pAz=[0,6,1],pBz=[0,9,4],pCz=[0,6],prec=(2,),bb=dict(pAz=[6,3],pBz=[9,4],pCz=6))+fm("h_C07",al=1,be=[1,2],pAn=15,pBn=15,pCn=15,pAz=[0,1],pBz=[4],pCz=[6],bc=dict(al=3,be=[3,2],pAz=[3],pBz=[14],pCz=[6]),bb=dict(al=3,be=[3,2],pAz=[1,3]))+fm("h_C07",al=[2,3],be=[2,3,4],same=1,prec=(2,),pAn=15,pCn=15,pAz=[4],pCz=6)+fm("h_C07",thr=1,al=3,be=[2,3],prec=(2,),pAn=15,pBn=15,pCn=15,pAz=6,pBz=4,pCz=6)
    j+=more("h_C07",sc=1,mul=1,q=q)
    for n,bl in ((3,3),(4,4),(5,5),(6,[6,42,15]),(7,[7,61,43]),(8,[8,53])): j+=X("h_C07",fmt=B,N=n,blocks=bl,rc=[1,n],build=3,prec=[2] if q else [1,2],al=3,be=3)
    j+=fm("h_C07",N=3,al=1,be=1,prec=(2,),pAn=FULL3,pBn=FULL3,pCn=FULL3,pAz=[U3,CYC3],pBz=[L3,ARR3],pCz=[OD3,R3],bb=dict(pAz=[OD3,CYC3],pBz=[OD3,CYC3],pCz=R3))
    if not q: j+=fm("h_C07",al=0,be=0,prec=(1,2,3,4),pAn=15,pBn=15,pCn=15,pAz=[0,6,1,8,3],pBz=[0,9,4,2,12],pCz=[0,6,15])+fm("h_C07",al=3,be=2,prec=(2,),pCz=15)+fm("h_C07",N=3,al=1,be=1,prec=(2,4),pAn=FULL3,pBn=FULL3,pCn=FULL3,pAz=PAT3,pBz=PAT3[1:5],pCz=[OD3,R3])
    return dict(jobs=j,bounds="N=2: structured and (thorough) every sparsity pattern of A and B; N=3: structured patterns; any values and scalars; "+NB)
@spec("C08")
def c08(t):
    q=t=="quick"
    j=fm("h_C08",fmts=(D,E,B,C),how=0,stale=[0,1],pAn=15,pAz=[0,6,1,4],bc=dict(pAz=[6,3]))+fm("h_C08",how=1,stale=[1],pAn=15,pBn=15,pAz=[0,6,1],pBz=[0,4],bb=dict(pAz=[6,1],pBz=[4,9]),bc=dict(pAz=[6,3],pBz=10))+fm("h_C08",fmts=(D,E,B,C),how=2,stale=[1],pAn=15,pBn=15,pAz=[0,6,1],pBz=[0,4],bb=dict(pAz=[6,1],pBz=[4,9]),bc=dict(pAz=[6,3],pBz=10))+fm("h_C08",fmts=(D,E,B,C),how=0,thr=1,stale=1,prec=(2,),pAn=15,pAz=[4])+fm("h_C08",how=1,thr=1,stale=1,prec=(2,),pAn=15,pBn=15,pAz=[6],pBz=4)+fm("h_C08",how=1,same=1,stale=2,prec=(2,),pAn=15,pAz=[0,2])
    for n,bl in ((3,3),(4,4),(5,5),(6,[6,42]),(7,[7,61]),(8,[8])): j+=X("h_C08",fmt=B,N=n,blocks=bl,rc=[1,n],build=3,prec=2,how=[0,1,2],stale=0)
    j+=more("h_C08",fmts=(D,E,B,C),how=[1,2],stale=1,mul=1,tk=dict(stale=2),q=q)+more("h_C08",fmts=(D,E,B,C),how=0,stale=1,mul=1,tk=dict(stale=2,pAz=CYC3),q=q)+X("h_C08",fmt=[E,C],how=0,stale=2,N=3,M=1,MC=3,prec=[2,4],pAn=FULL3,pAz=CYC3)+X("h_C08",fmt=[E,C],how=0,stale=2,N=3,M=3,MC=2,prec=[2,4],pAn=FULL3,pAz=[CYC3,OD3])
    j+=fm("h_C08",N=3,fmts=(D,E,B,C),how=[0,1,2],stale=[1],prec=(2,),pAn=FULL3,pBn=FULL3,pAz=[U3,CYC3],pBz=[L3,ARR3],bb=dict(pAz=[OD3,CYC3],pBz=[OD3,ARR3]))
    if not q: j+=fm("h_C08",fmts=(D,E,B,C),how=0,stale=1,prec=(2,4))+fm("h_C08",fmts=(D,E,B,C),how=[1,2],stale=[2],prec=(2,),pBn=15)+fm("h_C08",N=3,fmts=(D,E,B,C),how=[0,1,2],stale=[1],prec=(1,2,3,4),pAn=FULL3,pBn=FULL3,pAz=PAT3,pBz=[L3,ARR3])
    return dict(jobs=j,bounds="N=2 and N=3, structured (thorough: every) sparsity patterns, any values; "+NB)
@spec("C09")
def c09(t):
    q=t=="quick"
    j=fm("h_C09",fmts=(D,E,C),stale=1,pAn=15,pBn=15,pAz=[0,6,1],pBz=[0,9,4])+fm("h_C09",fmts=(D,E,C),stale=0,prec=(2,))+fm("h_C09",fmts=(D,E,C),thr=1,prec=(2,4),pAn=15,pBn=15,pAz=[6],pBz=[0,4],stale=1)+fm("h_C09",fmts=(D,E,C),same=1,stale=2,prec=(2,4))+fm("h_C09",N=3,fmts=(D,E,C),stale=1,prec=(2,),pAn=FULL3,pBn=FULL3,pAz=[U3,CYC3],pBz=[L3,ARR3])
    j+=more("h_C09",fmts=(D,E,C),stale=1,tk=dict(stale=2),q=q)
    if not q: j+=fm("h_C09",fmts=(D,E,C),stale=[1,2],thr=[0,1],prec=(2,))+fm("h_C09",N=3,fmts=(D,E,C),stale=1,prec=(2,4),pAn=FULL3,pBn=FULL3,pAz=PAT3,pBz=PAT3)
    return dict(jobs=j,bounds=QB+"; ellblock declares the operation unsupported")
@spec("C10")
def c10(t):
    q=t=="quick"
    j=fm("h_C10",how=[0,1,3])+fm("h_C10",how=2,stale=[0,1,2],pAn=15,pAz=[0,6,8])+fm("h_C10",N=3,how=[0,1,2,3],stale=1,prec=(2,),pAn=FULL3,pAz=PAT3)
    j+=more("h_C10",how=[0,1,3],sc=1,q=q)+more("h_C10",how=2,sc=1,stale=1,tk=dict(stale=2),q=q)
    if not q: j+=fm("h_C10",how=2,stale=[0,1,2,3])+fm("h_C10",N=3,how=[0,1,2,3],stale=[1,2],prec=(2,4))
    return dict(jobs=j,bounds=QB)
@spec("C11")
def c11(t):
    q=t=="quick"
    j=fm("h_C11",how=[0,1])+fm("h_C11",N=3,how=[0,1],prec=(2,))+fm("h_C11",N=3,how=[0,1],prec=(4,),pAn=FULL3,pAz=PAT3)
    j+=more("h_C11",how=[0,1],q=q)
    if not q: j+=fm("h_C11",N=3,how=[0,1])+fm("h_C11",N=4,how=[0,1],prec=(2,),pAn=0xffff,pAz=[0,0x8421,0x5a5a,0x1248,0xf731])
    return dict(jobs=j,bounds="N=2 and N=3: every sparsity pattern; "+QB)
@spec("C12")
def c12(t):
    q=t=="quick"
    j=fm("h_C12",fmts=(D,),adj=[0,1],N=2)+fm("h_C12",fmts=(E,),adj=1,N=2)+fm("h_C12",fmts=(D,),adj=[0,1],N=3)+fm("h_C12",fmts=(E,),adj=1,N=3,prec=(2,4),pAn=FULL3,pAz=PAT3)
    j+=more("h_C12",fmts=(D,),adj=[0,1],q=q)+more("h_C12",fmts=(E,),adj=1,tk=dict(pAz=0x1ff&~((1<<0)|(1<<4)|(1<<8)|(1<<1)|(1<<3))),q=q)
    if not q: j+=fm("h_C12",fmts=(E,),adj=1,N=3)+fm("h_C12",fmts=(D,),adj=[0,1],N=4)
    return dict(jobs=j,bounds=QB+"; the reflections exist for dense (both) and ellpack (adjungate) only")
@spec("C13")
def c13(t):
    q=t=="quick"
    j=fm("h_C13",how=[0,1],thr=[0,1],prec=(2,))+fm("h_C13",how=[0,1],thr=[1],pAn=15,pAz=[0,6])+fm("h_C13",N=3,how=[0,1],thr=1,prec=(2,),pAn=FULL3,pAz=[U3,CYC3,ARR3])
    j+=more("h_C13",how=[0,1],thr=0,q=q)+more("h_C13",how=[0,1],thr=1,wide=0,big=0,q=q)
    if not q: j+=fm("h_C13",how=[0,1],thr=[0,1,2])+fm("h_C13",N=3,how=[0,1],thr=1,prec=(2,),pAn=FULL3,pAz=PAT3)
    return dict(jobs=j,bounds=QB)
@spec("C14")
def c14(t):
    q=t=="quick"
    j=fm("h_C14",how=[0,1],same=[0],pAn=15,pBn=15,pAz=[0,6,9],pBz=[0,5,2])+fm("h_C14",how=[0,1],prec=(2,))+fm("h_C14",how=1,same=1)+fm("h_C14",N=3,how=[0,1],prec=(2,),pAn=FULL3,pBn=FULL3,pAz=PAT3,pBz=[0,U3,CYC3])
    j+=more("h_C14",how=[0,1],q=q)
    if not q: j+=fm("h_C14",how=[0,1])+fm("h_C14",N=3,how=[0,1],prec=(2,4),pAn=FULL3,pBn=FULL3,pAz=PAT3,pBz=PAT3)
    return dict(jobs=j,bounds=QB)
@spec("C15")
def c15(t):
    q=t=="quick"
    j=fm("h_C15",how=[0,4])+fm("h_C15",how=1,fmts=(D,E,C))+fm("h_C15",how=[2,3],pAn=15,pBn=15,pAz=[0,6,9],pBz=[0,5,2],bc=dict(al=3,be=3,pAz=[6,14],pBz=[5]),bb=dict(pAz=[6,9]))+fm("h_C15",how=[2,3],al=[0],be=0,prec=(2,),bb=dict(pAn=9,pBz=6))+fm("h_C15",fmts=(D,E),how=5,prec=(1,2,3,4),pAn=15,pBn=15,pAz=[0,6,9],pBz=[0,5,2])+fm("h_C15",fmts=(D,E),how=5,prec=(2,))+fm("h_C15",how=[2,3],thr=1,al=1,be=1,prec=(2,),pAn=15,pBn=15,pAz=[6],pBz=[6,3])
    j+=more("h_C15",how=[0,2,3,4],sc=1,q=q)+more("h_C15",how=1,fmts=(D,E,C),q=q)+more("h_C15",how=5,fmts=(D,E),q=q)
    j+=fm("h_C15",N=3,how=[0,2,3,4],prec=(2,),al=1,be=1,pAn=FULL3,pBn=FULL3,pAz=[U3,CYC3,C3],pBz=[L3,ARR3])+fm("h_C15",N=3,how=1,fmts=(D,E,C),prec=(2,),pAn=FULL3,pAz=[U3,CYC3,C3])+fm("h_C15",N=3,fmts=(D,E),how=5,prec=(2,),pAn=FULL3,pBn=FULL3,pAz=[U3,CYC3],pBz=[L3,ARR3])
    if not q: j+=fm("h_C15",how=[2,3],prec=(1,3,4))+fm("h_C15",N=3,how=[0,2,3,4],prec=(2,4),al=1,be=1,pAn=FULL3,pBn=FULL3,pAz=PAT3,pBz=[0,L3,ARR3,CYC3])
    return dict(jobs=j,bounds=QB)
@spec("C16")
def c16(t):
    q=t=="quick"
    j=fm("h_C16",how=[0,2],prec=(2,))+fm("h_C16",fmts=(D,E,C),how=1,prec=(2,))+fm("h_C16",how=2)+fm("h_C16",how=0,prec=(1,3,4),pAn=15,pAz=[0,6,4],bc=dict(pAz=[6,4]))+fm("h_C16",how=3,fmts=(D,E,C),pAn=15,pAz=[0,6,4,9],prec=(1,2,3,4))+fm("h_C16",N=3,how=[0,2],prec=(2,),psA=5,pAz=[U3,CYC3,ARR3])
    j+=more("h_C16",how=0,wide=0,big=0,q=q)+more("h_C16",how=2,wide=0,q=q)+more("h_C16",fmts=(D,E,C),how=[1,3],wide=0,q=q)+X("h_C16",fmt=C,N=12,wide=1,how=3,prec=2)
    return dict(jobs=j,bounds=QB)
OPS="ADD SUB ADDID SCADDID MUL MULADD X2 AB ADJ SCALEIN SCALE TR TRNEW THR THRNEW COPY COPYNEW SETEL SETROW SETDIAG HAD ADDNORM CLEAR CONV ADJUNG NORMZ READ ZERO IDENT SCALENEW EXPIMP XTRACT TRTRI IO DIAGZ INV GROUP".split()
ON={n:i for i,n in enumerate(OPS)}
def ops(f,skip=()):
    bad={C:"ADDNORM ADJUNG TRTRI GROUP",B:"HAD ADJUNG TRTRI GROUP",E:"TRTRI",D:"GROUP"}[f].split()+list(skip)
    return [ON[o] for o in OPS if o not in bad]
@spec("C21")
def c21(t):
    q=t=="quick"; j=[]; P=dict(psA=4,psB=4,psC=4); S=("DIAGZ","INV","GROUP"); P3=dict(pAz=CYC3,pBz=ARR3,pCz=R3)
    for f in (D,E,B,C):
        b=[11] if f==B else [0]; b3=[12] if f==B else [0]
        j+=X("h_C21",fmt=f,N=2,prec=2,blocks=b,op=ops(f,S),steps=2,pAz=2,pBz=4,pCz=9,**P)
        j+=X("h_C21",fmt=f,N=3,prec=2,blocks=b3,op=ops(f,S+(("READ","ADD","SUB","ADDID","SCADDID","ADDNORM","MULADD","NORMZ","X2") if f==B else ("READ",))),steps=2,nroles=1 if f==B else 2,lite=1 if f==B else 0,**dict(P,**P3))
        j+=X("h_C21",fmt=f,N=2,prec=4,blocks=b,op=ops(f,S+("READ",)),steps=2,nroles=1,pAz=6,pBz=9,pCz=1,**P)
        if not q:
            j+=X("h_C21",fmt=f,N=2,prec=2,blocks=b,op=ops(f,S),steps=3,nroles=3,pAz=2,pBz=4,pCz=9,**P)
            j+=X("h_C21",fmt=f,N=2,prec=[1,3,4],blocks=b,op=ops(f,S),steps=2,nroles=6,pAz=2,pBz=4,pCz=9,build=[0,5],**P)
            j+=X("h_C21",fmt=f,N=2,prec=2,blocks=b,op=ops(f,S+("READ",)),steps=2,nroles=3,gen=1,pAn=15,pBn=15,pCn=15,pAz=2,pBz=4,pCz=9)
    j+=X("h_C21",fmt=B,N=4,M=2,mb=2,blocks=1111,prec=2,op=[ON["CONV"],ON["XTRACT"]],op2=[ON[o] for o in ("ADD","SUB","ADDNORM","MUL","X2","AB","ADJ","SCALE","COPY","TR","TRNEW","THRNEW","EXPIMP","SETDIAG","READ")],steps=2,cap=1,pAz=z4(0,1,11,22,32,33),pBz=z4(0,10,11,23,32),pCz=z4(1,10,22,23,33),**P)
    # a threshold that drops some of the entries (whole blocks, whole rows), then any operation
    for f in (D,E,B,C):
        j+=X("h_C21",fmt=f,N=3,prec=2,blocks=[111] if f==B else [0],op=[ON["THR"],ON["THRNEW"]],op2=ops(f,S+("READ",) if q else S),steps=2,nroles=1 if q else 6,lite=0,thr=1,small=(1<<0)|(1<<8)|(0 if q else 1<<4),pAz=z3(0,1,2,11,22),pBz=z3(0,10,22),pCz=z3(1,11,20),**P)
    return dict(jobs=j,bounds="sequences of 2 (thorough 3) operations drawn from 33, any argument roles, N=2 and 3, positive entries (thorough: any) in fixed patterns; a threshold that drops entries, blocks or rows followed by any operation (N=3)")
@spec("C22")
def c22(t):
    q=t=="quick"; j=[]; P=dict(psA=4,psB=4,psC=4); Z=z4(0,1,10,11,22,23,32,33); S=("DIAGZ","INV","GROUP")
    j+=X("h_C22",fmt=[E],N=4,M=2,prec=2,op=ops(E,S),pAz=Z,pBz=Z,pCz=Z,build=[0,2],**P)+X("h_C22",fmt=[C],N=4,M=2,prec=2,op=ops(C,S),pAz=Z,pBz=Z,pCz=Z,build=[0,2],**P)
    j+=X("h_C22",fmt=[E],N=2,M=1,prec=[2] if q else [1,2,3,4],op=ops(E),pAn=15,pBn=15,pCn=15,pAz=6,pBz=6,pCz=6,gen=1)+X("h_C22",fmt=[C],N=2,M=1,prec=[2] if q else [1,2,3,4],op=ops(C),pAn=15,pBn=15,pCn=15,pAz=6,pBz=6,pCz=6,gen=1)
    j+=X("h_C22",fmt=B,N=2,M=1,blocks=11,prec=[2] if q else [1,2,3,4],op=ops(B,("READ",)),pAz=6,pBz=6,pCz=6,**P)+X("h_C22",fmt=B,N=3,M=2,blocks=12,prec=2,op=ops(B,S+("READ",)),pAz=z3(0,11,12,21,22),pBz=z3(0,11,12,21,22),pCz=z3(0,11,12,21,22),**P)
    for f in (D,E,B,C): j+=X("h_C22",fmt=f,N=1,blocks=[1] if f==B else [0],prec=[1,2,3,4],op=ops(f),same=[0,1])
    j+=X("h_C22",fmt=C,N=12,wide=1,prec=2,op=ops(C,("READ","MULADD")+S),**P)+X("h_C22",fmt=C,N=12,wide=12,prec=[2,4] if q else [1,2,3,4],op=[ON[o] for o in (("COPY","TR") if q else ("COPY","TR","ADD","SCALE","SETROW"))],build=[0,2,4],M=2,**P)
    for f in (D,E,C): j+=X("h_C22",fmt=f,N=3,prec=2,op=ops(f,("READ","DIAGZ","INV")),build=5 if f!=D else 0,pAz=ARR3,pBz=R3,pCz=C3,**P)
    j+=X("h_C22",fmt=B,N=5,blocks=[23] if q else [23,32],prec=2,op=ops(B,S+("READ","ADDNORM","MULADD","X2")),pAz=z5(3,12,31,44),pBz=z5(34,12,40,1),pCz=z5(3,13,20,42),lite=1,**P)
    if not q:
        for f in (E,C): j+=X("h_C22",fmt=f,N=4,M=2,prec=[2,4],op=ops(f,S+("READ",)),pAz=Z,pBz=Z,pCz=Z,build=[0,2,5],steps=2,**P)
        j+=X("h_C22",fmt=B,N=4,M=2,blocks=[22],prec=2,op=ops(B,S+("READ",)),pAz=Z,pBz=Z,pCz=Z,**P)
        j+=X("h_C22",fmt=C,N=12,wide=[6,12],prec=[2,4],op=ops(C,("READ","MULADD")+S),**P)
    return dict(jobs=j,bounds="every operation: rows exactly full (N=4 with M=2, N=2 with M=1), one-row matrices, csr rows longer than their initial allocation (N=12), explicit zeros; every access of every run of every other check is checked too")
@spec("C23")
def c23(t):
    q=t=="quick"; j=[]; P=dict(psA=4,psB=4,psC=4)
    for f in (D,E,B,C):
        b=[11] if f==B else [0]
        j+=X("h_C23",fmt=f,N=2,prec=[2] if q else [1,2,3,4],blocks=b,op=ops(f),steps=2,pAz=2,pBz=4,pCz=9,**P)
        j+=X("h_C23",fmt=f,N=2,prec=[1,3,4],blocks=b,op=ops(f,("READ",)),steps=1,pAz=6,pBz=9,pCz=1,**P)
        j+=X("h_C23",fmt=f,N=2,prec=2,blocks=b,op=ops(f,("READ",)),steps=1,gen=1,pAn=15,pBn=15,pCn=15,pAz=6,pBz=6,pCz=[0,1])
        j+=X("h_C23",fmt=f,N=2,prec=2,blocks=b,op=ops(f,("READ",)),steps=1,same=1,pAz=2,pBz=4,pCz=9,**P)
        j+=X("h_C23",fmt=f,N=3,prec=2,blocks=[12] if f==B else [0],op=ops(f,("READ",)),steps=1 if q else 2,pAz=CYC3,pBz=ARR3,pCz=R3,**P)
    j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=4,procs=4,prec=[2] if q else [2,4],blocks=[11] if f==B else [0],op=[0,5,6,7,10,11,19,22,23,24,25,26,27,28,29,32,34],leaks=1,mpimode=0,psA=4,psB=4,psC=4,pAz=z4(0,3,10,22,31),pBz=z4(1,12,20,33))]
    j+=[x for f in (D,E,B,C) for x in X("h_C31",mpi=True,fmt=f,N=3,procs=4,prec=[2] if q else [1,2,3,4],blocks=[12] if f==B else [0],how=[0,1,2,3,4],leaks=1,mpimode=0,pAz=CYC3,pBz=[ARR3,OD3],pAn=511,pBn=511)]
    j+=X("h_C39",mpi=True,procs=4,fmt=[D,E],N=3,prec=[2] if q else [1,2,3,4],how=[0,2],cuts=[1110,201],op=[0,1,2,3,5,6,7],leaks=1,mpimode=0,psA=4,psB=4,pAz=CYC3,pBz=ARR3)
    return dict(jobs=j,bounds="distributed operations and messages over 4 ranks (also MPI communicators and datatypes); one operation on matrices of any values, two operations on positive matrices, all formats and precisions, N=2 and 3")
@spec("C33")
def c33(t):
    q=t=="quick"; j=[]
    for f in (D,E,B,C):
        b=[11] if f==B else [0]
        j+=X("h_C33",fmt=f,N=2,prec=[1,2] if f==B else [1,2,3,4],blocks=b,op=ops(f,("READ",)),same=[0,1],pAn=15,pBn=15,pCn=15,pAz=2,pBz=6,pCz=9)
        j+=X("h_C33",fmt=f,N=2,prec=[1,2,3,4],blocks=b,op=ops(f),same=[0,1],gen=0,psA=4,psB=4,psC=4,pAz=2,pBz=4,pCz=9)
        j+=X("h_C33",fmt=f,N=3,prec=2,blocks=[12] if f==B else [0],op=ops(f,("READ",)),gen=0,psA=4,psB=4,psC=4,pAz=CYC3,pBz=ARR3,pCz=R3)
        j+=X("h_C33",fmt=f,N=3,prec=[2,4],blocks=[12] if f==B else [0],op=ON["READ"],sv=1,gen=0,same=[0,1],psA=4,psB=4,psC=4,pAz=[CYC3] if f in (B,D) else [CYC3,T3],pBz=ARR3,pCz=R3)
        if not q: j+=X("h_C33",fmt=f,N=2,prec=2,blocks=b,op=ops(f,("READ",)),same=[0,1])
    return dict(jobs=j,bounds="every operation, N=2 and 3, fixed patterns with any values; the same matrix in two read-only places")
@spec("C17")
def c17(t):
    q=t=="quick"
    j=fm("h_C17",prec=(1,2,3,4),thr=[0,1])+fm("h_C17",N=3,prec=(2,),thr=0,pAn=FULL3,pAz=PAT3)+X("h_C17big",fmt=E,prec=2,N=46341)
    j+=more("h_C17",thr=0,q=q)
    if not q: j+=fm("h_C17",N=3,prec=(1,2,3,4),thr=[0,1],pAn=FULL3,pAz=PAT3)+X("h_C17big",fmt=[E,C],prec=[1,4],N=[46341,65536,92683])
    return dict(jobs=j,bounds=QB+"; one matrix with 46341 rows (N*N exceeds an int)")
@spec("C18")
def c18(t):
    q=t=="quick"
    j=fm("h_C18",what=[0,1,4,5],prec=(1,2,3,4))+fm("h_C18",what=[2,3],prec=(2,4),N=3,M=2,blocks=[12,21,3])+fm("h_C18",what=[2,3],prec=(2,),N=1)+X("h_C18",fmt=B,what=6,bs=[21,12,3,111],prec=[1,2,3,4],N=3)
    j+=X("h_C18big",fmt=[D,E,B,C],prec=2,N=20,M=16,what=[0,1,2])+X("h_C18big",fmt=[D,E,B,C],prec=2,N=[9,13],M=[1,2,5],what=[0,1,2])
    j+=fm("h_C18",what=2,prec=(2,4) if q else (1,2,3,4),N=4,M=[2,3] if q else [1,2,3,4],blocks=[22,121,4],rpos=1)+X("h_C18big",fmt=[D,E,B,C],prec=2,N=12,M=[4,7],what=2,rpos=1)
    if not q: j+=X("h_C18big",fmt=[D,E,B,C],prec=[1,3,4],N=[7,16,17,33],M=[1,3,7],what=[0,1,2])+fm("h_C18",what=[2,3],prec=(1,3),N=3,M=[1,2,3],blocks=[12,21,3])+fm("h_C18",what=2,prec=(2,),N=4,M=[1,2,3,4])
    return dict(jobs=j,bounds="every constructor, all formats and precisions, N=1..3 with any random values; structure for N up to 20 (thorough 33), rows of 1..16 entries")
@spec("C19")
def c19(t):
    q=t=="quick"
    j=fm("h_C19",how=0,prec=(2,4),M=2)+fm("h_C19",how=[0,2,3],N=3,prec=(2,),pAn=FULL3,pAz=[0,CYC3,ARR3],pBn=FULL3,pBz=[0,L3],blocks=[12,111])+fm("h_C19",how=1,N=3,prec=(2,),pAn=FULL3,pAz=[0,CYC3,ARR3],fmts=(D,E,C),pBz=[0,5])
    j+=X("h_C19list",fmt=E,N=3,prec=2,how=0,pAn=FULL3,pAz=[0,CYC3],pad=[0,1])+X("h_C19list",fmt=E,N=3,prec=2,how=[1,2],thr=[0,1],pAn=FULL3,pAz=[0,CYC3],pBn=FULL3,pBz=[0,U3])+X("h_C19list",fmt=E,N=3,prec=[1,3,4],how=[0,1,2],pAn=FULL3,pAz=CYC3,pBn=FULL3,pBz=U3)
    j+=X("h_C19",fmt=[D,E,C],N=4,how=0,tm=1,prec=[1,2,3,4],psA=4,pAz=[z4(0,3,10,22,31),z4(1,13,20,33)])+X("h_C19",fmt=[E,C],N=3,how=0,tm=1,prec=2)
    j+=X("h_C19",fmt=B,N=5,blocks=[23],how=[0,2,3],prec=2,psA=4,psB=4,pAz=z5(3,12,31,44),pBz=z5(4,20,33))+X("h_C19",fmt=[D,E,C],N=7,how=[0,2,3],prec=2,sp=1)
    if not q: j+=fm("h_C19",how=[0,2,3],N=3,prec=(1,3,4),pAn=FULL3,pAz=PAT3,pBn=FULL3,pBz=[0,L3],blocks=[12,21,111])+X("h_C19list",fmt=E,N=4,prec=2,how=[0,1,2],psA=4,psB=4,pAz=[z4(0,3,10,22,31),z4(1,12,20,33)],pBz=[z4(0,11,12,23,30,33)])
    return dict(jobs=j,bounds="N=2 and 3 (thorough 4); any sub-block position and index list; structured patterns, any values; the index-list functions exist for ellpack only")
@spec("C20")
def c20(t):
    q=t=="quick"
    j=X("h_C20",fmt=E,N=3,prec=2,how=[0,1],dj=[0,1],pAz=[0x1df,0x1ff&~(1<<7)],pBz=[0b101110101,0b010101110])+X("h_C20",fmt=E,N=2,prec=[1,2,3,4],how=[0,1],dj=[0,1])+X("h_C20adj",fmt=E,N=3,prec=2,base=[0,1],group=[0,1])+X("h_C20adj",fmt=E,N=2,prec=[1,2,3,4],base=[0,1],group=[0,1])
    j+=X("h_C20grp",fmt=E,N=3,prec=2,gs=[12,111,3],thr=[0,1],pAn=FULL3,pAz=[0,OD3,ARR3])+X("h_C20grp",fmt=E,N=2,prec=[1,3,4],gs=[11,2],thr=[0,1],pAn=15,pAz=[0,6])
    P5=lambda *e: ((1<<25)-1)&~sum(1<<(5*a+b) for x in e for a,b in ((x//10,x%10),(x%10,x//10)))&~sum(1<<6*i for i in range(5)); j+=X("h_C20",fmt=E,N=5,prec=2,how=[0,1],dj=[0,1],len=1,pAz=[(1<<25)-1],pBz=[P5(1,12,23,34),P5(3,32,24,41)],pBn=(1<<25)-1)
    if not q: j+=X("h_C20",fmt=E,N=3,prec=[2,4],how=[0,1],dj=[0,1],pAz=[U3,L3,CYC3,ARR3],pBz=[U3,CYC3,C3])+X("h_C20adj",fmt=E,N=4,prec=2,base=[0,1],group=[0,1],pAn=FULL4,pAz=[z4(0,3,10,22,31),z4(1,12,20,33),0])+X("h_C20grp",fmt=E,N=4,prec=2,gs=[22,13,121],thr=0,pAn=FULL4,pAz=[0,z4(0,1,10,22,33,23,32),z4(0,3,30,11,22,33)])
    return dict(jobs=j,bounds="N=2 and 3 (thorough 4), patterns and values symbolic; ellpack only (the other formats declare these unsupported)")
@spec("C24")
def c24(t):
    q=t=="quick"; j=[]; P=dict(psA=4,psB=4,psC=4); Z=z4(0,1,10,11,22,23,32,33); T=dict(threads=[2,3],race=1); S=("DIAGZ","INV","GROUP")
    for f in (D,E,B,C):
        b=[11] if f==B else [0]; b3=[111] if f==B else [0]
        j+=X("h_C24",fmt=f,N=3,blocks=b3,prec=2,op=ops(f,("READ",) if f==B else ()),pAz=CYC3,pBz=ARR3,pCz=R3,**dict(P,**T))
        j+=X("h_C24",fmt=f,N=2,blocks=b,prec=[1,3,4],op=ops(f,("READ",)),pAz=2,pBz=4,pCz=9,threads=2,race=1,**P)
        j+=X("h_C24",fmt=f,N=2,blocks=b,prec=2,op=ops(f,S+("READ",)),pAz=2,pBz=4,pCz=9,threads=2,race=1,gen=1,pAn=15,pBn=15,pCn=15)
        # other orders of threads and of lock-protected sections
        j+=X("h_C24",fmt=f,N=2,blocks=b,prec=2,op=ops(f,S+("READ",)),pAz=2,pBz=4,pCz=9,threads=2,race=1,sched=[1,2],preempt=1 if q and f==C else 2,**P)
    for f in (D,E,B,C): j+=X("h_C24",fmt=f,N=3,blocks=[111] if f==B else [0],prec=2,op=ops(f,S+("READ",)),pAz=0,pBz=0,pCz=OD3,**dict(P,**T))
    for f in (E,C): j+=X("h_C24",fmt=f,N=4,M=2,prec=2,op=ops(f,S+("READ",)),pAz=Z,pBz=Z,pCz=Z,**dict(P,**T))
    F=dict(pAn=FULL3,pBn=FULL3,pCn=FULL3)
    for e,k in (("h_C17",dict(thr=1)),("h_C14",dict(how=[0,1])),("h_C15",dict(how=[0,4])),("h_C13",dict(how=[0,1],thr=1)),("h_C16",dict(how=[0,2],psA=4)),("h_C11",dict(how=[0,1])),("h_C10",dict(how=[0,1,2,3],stale=1)),("h_C01",dict(oi=[0,1],oe=[0,1])),("h_C04",dict(how=[0,1,2],stale=1)),("h_C26",dict(stale=1))):
        j+=fm(e,N=3,prec=(2,),pAz=[CYC3],pBz=ARR3,blocks=[12],**dict(dict(F,**k),**T))
    for e,k in (("h_C05",dict(how=[0,1,2],thr=1,al=5,be=5)),("h_C07",dict(thr=1,al=5,be=5)),("h_C08",dict(how=1,stale=1,thr=1))): j+=fm(e,N=2,prec=(2,),pAz=[6],pBz=9,pCz=5,pAn=15,pBn=15,pCn=15,blocks=[11],**dict(k,**T))
    j+=fm("h_C06",N=2,fmts=(D,E),prec=(2,),pAz=[6],pBz=9,pAn=15,pBn=15,al=5,be=5,**T)+fm("h_C09",N=3,fmts=(D,E,C),prec=(2,),stale=1,pAz=[CYC3],pBz=ARR3,**dict(F,**T))+fm("h_C08",N=3,fmts=(D,E),how=[0,2],stale=1,prec=(2,),pAz=[CYC3],pBz=ARR3,**dict(F,**T))
    j+=fm("h_C18",what=[0,1,2,3],prec=(2,),N=2,M=2,blocks=[11],**T)+fm("h_C19",how=[0,2,3],N=3,prec=(2,),pAz=[CYC3],pBz=[L3],blocks=[12],**dict(F,**T))+X("h_C19list",fmt=E,N=3,prec=2,how=[0,1,2],pAz=[CYC3],pBz=[U3],**dict(F,**T))
    j+=X("h_C20",fmt=E,N=3,prec=2,how=[0,1],dj=[0,1],pAz=[0x1ff&~(1<<7)],pBz=[0b010101110],**T)+X("h_C20adj",fmt=E,N=3,prec=2,base=0,group=[0,1],pAz=CYC3,**T)+X("h_C20grp",fmt=E,N=3,prec=2,gs=[12,111],thr=1,pAz=ARR3,pAn=FULL3,**T)
    j+=fm("h_C29",N=3,fmts=(D,E,B),prec=(2,),pAn=FULL3,pAz=[CYC3],blocks=[12],**T)+fm("h_C27",N=2,prec=(2,4),pAz=9,**T)+fm("h_C12",fmts=(D,),adj=[0,1],N=3,prec=(2,4),**T)+X("h_C12",fmt=E,adj=1,N=3,psA=4,prec=[2,4],pAz=[0,U3,L3,ARR3],**T)
    if not q:
        T4=dict(threads=4,race=1)
        for f in (D,E,C): j+=X("h_C24",fmt=f,N=4,prec=[2,4],op=ops(f,S+("READ",)),pAz=z4(0,3,10,22,31),pBz=z4(1,12,20,33),pCz=z4(0,1,13,31),**dict(P,**T4))
        for f in (D,E,B,C): j+=X("h_C24",fmt=f,N=2,prec=2,blocks=[11] if f==B else [0],op=ops(f,S+("READ",)),pAz=2,pBz=4,pCz=9,steps=2,threads=2,race=1,sched=[0,2],**P)
    return dict(jobs=j,bounds="2 and 3 threads (thorough 4); every operation in every format; every pair of accesses within a parallel phase; all orders of lock-protected sections with up to 2 preemptions")
@spec("C25")
def c25(t):
    q=t=="quick"
    j=X("h_C25",fmt=D,N=2,prec=2,mode=[0,1])+[x for f in (D,E) for x in X("h_C25upd",fmt=f,N=4,prec=2,mode=[0,1],parts=[1,2,3])]
    j+=X("h_C25",mpi=True,fmt=D,N=2,prec=2,mode=[0,1],procs=4)+X("h_C25",mpi=True,fmt=D,N=2,prec=2,mode=0,procs=9)+[x for f in (D,E) for x in X("h_C25upd",mpi=True,fmt=f,N=4,prec=2,mode=0,parts=[1] if q else [1,2],procs=4)]
    if not q: j+=X("h_C25",mpi=True,fmt=D,N=2,prec=2,mode=[0,1],procs=[9])+X("h_C25upd",mpi=True,fmt=[D,E],N=4,prec=2,mode=0,parts=3,procs=1)
    return dict(jobs=j,bounds="any matrix size up to 40000 over 1, 4 and 9 ranks (16 and 25 thorough); partitions into 1..3 parts per rank of any sizes")
@spec("C26")
def c26(t):
    q=t=="quick"
    j=fm("h_C26",stale=[0,1],again=[0,1],prec=(2,),pAn=15,pAz=[0,6,9])+fm("h_C26",stale=1,pAn=15,pAz=[0,6,9])+fm("h_C26",N=3,stale=[0,1],prec=(2,),pAn=FULL3,pAz=[0,CYC3,ARR3,R3])+fm("h_C26ext",sym=[0,1],ne=[0,1,2,3],prec=(1,2,3,4))
    j+=X("h_C26",fmt=[D,E,C],N=9,sp=[1,2],prec=[2,4],stale=1)+X("h_C26",fmt=B,N=5,blocks=[23,32],prec=2,psA=4,pAz=z5(3,31),stale=0)
    if not q: j+=fm("h_C26",N=3,stale=[0,1,2],again=[0,1],prec=(1,2,3,4),pAn=FULL3,pAz=PAT3)+fm("h_C26ext",N=3,sym=[0,1],ne=[2,4,5],prec=(2,4))
    return dict(jobs=j,bounds="N=2 and 3; written by the library and read back, and files of other origin (general and symmetric, entries in any order); digits beyond the written precision are outside the model")
@spec("C27")
def c27(t):
    q=t=="quick"
    j=fm("h_C27",prec=(1,2),pAz=[0,4,9])+fm("h_C27",prec=(3,4),pAz=[0,9])+fm("h_C27",N=1,prec=(1,2))
    V=dict(vm=5,vz=[0,0x0a2,0x151]); j+=fm("h_C27",N=3,fmts=(D,E,C),prec=(2,),pAz=[0,64,64|128,8],**V)+fm("h_C27",N=3,fmts=(D,E,C),prec=(4,),pAz=[64,64|128],pos=1,**V)+fm("h_C27",N=3,fmts=(B,),blocks=[3,12],prec=(2,),pAz=[0,64],pos=1,vm=4,vz=[0x0aa,0x155])
    if not q: j+=fm("h_C27",N=3,fmts=(D,E,C),prec=(1,3),pAz=[0,8,64])+fm("h_C27",N=4,fmts=(D,E,C),prec=(2,4),pos=1,vm=4,vz=[0,0x1248,0x5a5a],pAz=[0])
    return dict(jobs=j,bounds="N=1..3 (thorough 4), any Hermitian matrix, any eigenvalues and eigenvectors the solver may return (LAPACK is a contract stand-in; that the returned vectors are eigenvectors is LAPACK's own guarantee)")
@spec("C28")
def c28(t):
    q=t=="quick"
    j=fm("h_C28",fmts=(D,E,B,C),prec=(1,2,3,4),pAn=15,pAz=[0,6])+fm("h_C28",N=3,fmts=(D,E,C),prec=(2,),pAn=FULL3,pAz=[0,CYC3])+X("h_C28",fmt=B,N=3,blocks=[12,21],prec=2,psA=4,pAz=[CYC3])
    return dict(jobs=j,bounds="N=2 and 3, any matrix, any factorisation result (LAPACK is a contract stand-in)")
@spec("C29")
def c29(t):
    q=t=="quick"
    j=fm("h_C29",fmts=(D,E,B),prec=(1,2,3,4))+fm("h_C29",N=3,fmts=(D,E),prec=(2,),pAn=FULL3,pAz=PAT3)+fm("h_C29",N=3,fmts=(B,),prec=(2,),pAn=FULL3,pAz=[0,CYC3,U3,OD3])
    if not q: j+=fm("h_C29",N=3,fmts=(D,E),prec=(1,3,4),pAn=FULL3,pAz=PAT3)+fm("h_C29",N=4,fmts=(D,E,B),prec=(2,),psA=4,pAz=[z4(0,3,10,22,31),z4(1,12,20,33)])
    return dict(jobs=j,bounds=QB+"; any permutation; csr declares the operation unsupported")
@spec("C32")
def c32(t):
    q=t=="quick"
    j=X("h_C32",prec=[1,2,3,4],ta=[0,1,2],tb=[0,1,2],pad=[0,1])+X("h_C32",prec=[2,4],al=[0,1,2],be=[1,2,3],pad=[0,1])+X("h_C32",prec=2,m=[1,2,3],n=[1,3],k=[0,1,3],ta=[0,1],tb=[0,1],pad=1,al=2,be=[1,2])+X("h_C32",prec=2,m=[0,2],n=[0,2],k=[0,2],pad=[0,1],al=[0,1],be=[0,1])
    if not q: j+=X("h_C32",prec=[1,2,3,4],ta=[0,1,2],tb=[0,1,2],pad=[0,1],al=[0,1,2],be=[0,1,2,3])+X("h_C32",prec=[2,4],m=3,n=[2,3],k=[2,3],ta=[0,1,2],tb=[0,1,2],pad=1)
    return dict(jobs=j,bounds="m, n, k from 0 to 3; every transposition; leading dimensions larger than the matrix; any scalars and values")
S4,T4=z4(0,3,10,22,31),z4(1,12,20,33)   # zero patterns of 4x4 matrices distributed over 2x2 ranks (every block keeps non-zero entries)
F4=0xffff
def dist(**kw): return [x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,**dict(dict(blocks=[11] if f==B else [0]),**kw)) if not (f==C and x["params"]["op"]==2)]
NOIDX=[1,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,22,23,24,25,26,27,28,31,32,34]
@spec("C30")
def c30(t):
    q=t=="quick"; P=dict(pAn=F4,pBn=F4,pCn=F4)
    # 4x4 over 2x2 ranks, blocks with zeros and non-zeros
    PS=dict(psA=4,psB=4,psC=4); MULT=[1,5,6,7,15]; LIN=[0]+[o for o in NOIDX if o not in MULT]
    j=dist(N=4,procs=4,prec=2,op=LIN,mpimode=[0,1],pAz=0xffff&~S4,pBz=0xffff&~T4,pCz=0xffff&~z4(0,11,23,32),**P)
    j+=dist(N=4,procs=4,prec=2,op=[1,15],mpimode=0,pAz=0xffff&~S4,pBz=0xffff&~z4(0,12,20,33),**P)
    j+=dist(N=4,procs=4,prec=[2,4],op=MULT+[33],mpimode=[0,1],pAz=S4,pBz=T4,pCz=z4(0,11,23,32),**PS)
    j+=dist(N=4,procs=4,prec=[2],op=[5,6,7],mpimode=0,pAz=z4(0,3,11,22,31),pBz=z4(0,11,13,30,22),pCz=z4(2,11,31,33),**P)
    j+=dist(N=4,procs=4,prec=2,op=[2],mpimode=0,pAz=0xffff&~S4,pBz=0xffff&~T4,**P)
    j+=dist(N=4,procs=4,prec=4,op=LIN,mpimode=1,pAz=0xffff&~S4,pBz=0xffff&~z4(0,12,20,33),pCz=0xffff&~z4(0,11,23,32),**P)
    j+=dist(N=4,procs=4,prec=[1,3],op=[0,10,22,24,25,28,34],mpimode=0,pAz=0xffff&~S4,**P)+dist(N=4,procs=4,prec=[1,3],op=[5,6,7],mpimode=0,pAz=S4,pBz=T4,pCz=z4(0,11,23,32),**PS)
    # 2x2 over 2x2 ranks: one entry per rank, any value (also zero)
    j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=2,procs=4,prec=2,blocks=[1] if f==B else [0],op=[0,3,4,6,8,9,10,11,14,16,18,19,20,21,22,24,25,28,31],mpimode=[0,1])]
    j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=2,procs=4,prec=[1,3,4],blocks=[1] if f==B else [0],op=[0,5,8,10,12,17,22,28,33],mpimode=0,psA=4,psB=4,psC=4)]
    # one rank, nine ranks, column-major data, other formats, all message timings
    j+=dist(N=2,procs=1,prec=[2,4],op=[0]+NOIDX+[33],mpimode=0,psA=4,psB=4,psC=4)
    j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=3,procs=9,prec=2,blocks=[1] if f==B else [0],op=[0,1,4,5,6,7,10,11,12,13,17,22,24,25,28,34],mpimode=[0,1],pAn=511,pBn=511,pCn=511,pAz=[511&~CYC3,OD3],pBz=ARR3,pCz=CYC3)]
    j+=dist(N=4,procs=4,prec=[2,4],op=[0,10,28,34],ord=1,mpimode=0,pAz=[0xffff&~S4,T4],**P)
    j+=dist(N=4,procs=4,prec=[2,4],op=29,blocks=11,to=[1,2,3,4],mpimode=0,pAz=[0xffff&~S4,T4],**PS)
    j+=dist(N=4,procs=4,prec=2,op=[20,21,30],mpimode=0,pAz=z4(0,3,10,22,31),**P)
    j+=dist(N=4,procs=4,prec=2,op=[19],mpimode=0,pAz=z4(0,3,10,22),**P)
    j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=2,procs=4,prec=2,blocks=[1] if f==B else [0],op=[0,10,11],noexp=1,mpimode=2,psA=4,psB=4,psC=4)]
    if not q:
        j+=dist(N=4,procs=4,prec=[1,2,3,4],op=[0]+NOIDX+[33],mpimode=[0,1],pAz=[S4,0],pBz=[T4],pCz=[z4(0,11,23,32)],psA=4,psB=4,psC=4)
        j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=6,procs=[4,9],prec=[2,4],blocks=[0] if f!=B else [12],op=[0,1,4,5,6,7,10,11,12,13,17,22,24,25,28,34],mpimode=[0,1],psA=4,psB=4,psC=4) if not (f==B and x["params"]["procs"]==9)]
        j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=4,procs=16,prec=2,blocks=[1] if f==B else [0],op=[0,5,6,7,10,11,13,22,24,25,28,34],mpimode=[0,1],psA=4,psB=4,psC=4)]
        j+=[x for f in (D,E,B,C) for x in X("h_C30",mpi=True,fmt=f,N=2,procs=4,prec=[2,4],blocks=[1] if f==B else [0],op=[5,6,7,33],noexp=1,mpimode=2,psA=4,psB=4,psC=4)]
    return dict(jobs=j,bounds="1, 4 and 9 ranks (16 in the thorough tier); blocks of 1x1 and 2x2 (3x3 thorough) of any non-zero values in given zero patterns, and of any values for 1x1 blocks; messages delivered at once, as late as possible, or either for every single message; diagonalisation (ScaLAPACK) is outside the build")
@spec("C31")
def c31(t):
    q=t=="quick"; K=dict(mpi=True,procs=4)
    j=[x for f in (D,E,B,C) for x in X("h_C31",fmt=f,N=3,prec=[2,4],blocks=[12,111] if f==B else [0],how=[0,1,2,3,4],mpimode=[0,1],pAz=[CYC3,R3],pBz=[ARR3,OD3],pAn=511,pBn=511,**K)]
    j+=[x for f in (D,E,B,C) for x in X("h_C31",fmt=f,N=2,prec=[1,2,3,4],blocks=[11,2] if f==B else [0],how=[0,1,2,3,4],mpimode=[0,1],root=[0,2],rev=[0,1],pAn=15,pBn=15,pAz=[0,6,15],pBz=[0,9],**K) if not (x["params"]["how"]==4 and (x["params"]["root"] or x["params"]["rev"]))]
    j+=[x for f in (D,E,B,C) for x in X("h_C31",fmt=f,N=2,prec=2,blocks=[11] if f==B else [0],how=[0,1,3,4],mpimode=0,build=[0,2,5],build2=[0,2,5],**K)]
    j+=X("h_C31",fmt=C,N=12,M=[2,12],prec=2,how=[0,1,2,3,4],wide=3,mpimode=[0,1],**K)
    j+=X("h_C31",fmt=E,N=4,M=[3],prec=[2,4],how=[0,1,2,3,4],psA=4,psB=4,pAz=z4(0,3,10,22,31,12,20,33),pBz=z4(1,12,20,33,0,23,30),mpimode=0,**K)
    j+=X("h_C31",fmt=B,N=4,M=1,prec=[2,4],blocks=[22,1111,121],how=[0,1,2,3,4],pAn=0xffff,pBn=0xffff,pAz=z4(0,3,10,11,22,31),pBz=z4(1,12,20,33,30),mpimode=0,**K)
    j+=X("h_C31",fmt=C,N=6,M=1,prec=2,how=[0,1,2,3,4],psA=4,psB=4,mpimode=0,**K)
    j+=[x for f in (D,E,B,C) for x in X("h_C31",fmt=f,N=2,prec=2,blocks=[11] if f==B else [0],how=[0,1,2,3,4],mpimode=2,psA=4,psB=4,**K)]
    if not q:
        j+=[x for f in (D,E,B,C) for x in X("h_C31",fmt=f,N=4,prec=[1,2,3,4],blocks=[22,13,121] if f==B else [0],how=[0,1,2,3,4],mpimode=[0,1],pAz=[S4,0xffff&~S4],pBz=[T4,0xffff],psA=4,psB=4,**K)]
        j+=[x for f in (D,E,B,C) for x in X("h_C31",fmt=f,N=2,prec=[2,4],blocks=[11,2] if f==B else [0],how=[0,1,3,4],mpimode=[0,1,2],build=[0,2,3,4,5],build2=[0,2,3,4,5],**K)]
        j+=[x for f in (D,E,B,C) for x in X("h_C31",fmt=f,N=5,prec=[2],blocks=[23,32] if f==B else [0],how=[0,1,2,3,4],mpimode=[0,1],psA=4,psB=4,pAz=[0,0x15a2b3c],pBz=[0x0f0f0f0],**K)]
    return dict(jobs=j,bounds="4 ranks, 2 to 6 rows (12 for csr rows that must grow), all formats and precisions, any non-zero values in given zero patterns and any values for N=2; world and reversed communicators, two roots; messages delivered at once, as late as possible, or either for every single message")
@spec("C39")
def c39(t):
    q=t=="quick"; K=dict(mpi=True,procs=4)
    j=X("h_C39",fmt=D,N=2,prec=2,how=1,mpi=True,procs=[1,4])
    j+=X("h_C39",fmt=[D,E],N=3,prec=[1,2,3,4],how=0,cuts=[1110,2001,300,1011,3],mpimode=0,pAn=511,pBn=511,pAz=[0,CYC3],pBz=[ARR3],**K)
    j+=X("h_C39",fmt=[D,E],N=3,prec=[1,2,3,4],how=2,cuts=[1110,201],op=[0,1,2,3,5,6,7],mpimode=0,psA=4,psB=4,pAz=[CYC3],pBz=[ARR3],**K)
    j+=X("h_C39",fmt=[D,E],N=3,prec=2,how=2,cuts=[1110,2001,30],op=list(range(8)),mpimode=0,pAn=511,pBn=511,pAz=[OD3,CYC3],pBz=ARR3,**K)
    j+=X("h_C39",fmt=[D,E],N=4,prec=[2,4],how=[2],cuts=[1111,2020,121],op=[0,1,2,3,5,6,7],mpimode=0,psA=4,psB=4,pAz=[S4],pBz=[T4],**K)
    j+=X("h_C39",fmt=[D,E],N=3,prec=[1,2,3,4],how=2,cuts=[1110,201],op=[8,10,11,12],mpimode=0,psA=4,psB=4,pAz=CYC3,pBz=ARR3,**K)
    j+=X("h_C39",fmt=[D,E],N=3,prec=2,how=2,cuts=[1110,201,2001],op=9,mpimode=0,psA=4,psB=4,pAz=CYC3,pBz=ARR3,**K)
    j+=X("h_C39",fmt=[D,E],N=3,prec=2,how=2,cuts=[1110,201,2001],op=[8,10,11,12],mpimode=0,pAn=511,pBn=511,pAz=CYC3,pBz=ARR3,**K)
    if not q:
        j+=X("h_C39",fmt=[D,E],N=4,prec=[1,2,3,4],how=[0],cuts=[1111,2020,121,4,4000,1003],mpimode=0,psA=4,psB=4,pAz=[0,S4,T4],pBz=[T4,0xffff],build=[0,2],**K)
        j+=X("h_C39",fmt=[D,E],N=4,prec=[1,2,3,4],how=2,cuts=[1111,2020,121,4,4000,1003],op=[0,1,2,3,5,6,7,8,10,11,12],mpimode=0,psA=4,psB=4,pAz=[0,S4],pBz=[T4],**K)
        j+=X("h_C39",fmt=[D,E],N=6,prec=2,how=2,cuts=[111111000,200020002],op=[x for x in range(13) if x!=9],mpimode=0,psA=4,psB=4,mpi=True,procs=9)
    return dict(jobs=j,bounds="4 ranks (9 in the thorough tier), any partition listed of 3 or 4 (6) rows, dense and ellpack, all precisions, any non-zero values in given zero patterns; any values for the reductions")
@spec("C34")
def c34(t):
    q=t=="quick"
    j=fm("h_C34idx",how=0,fmts=(D,E,B,C),N=3,prec=(2,),pAn=FULL3,pAz=[0,CYC3])
    j+=fm("h_C34idx",how=1,fmts=(D,E,C),prec=(2,))
    j+=fm("h_C34idx",how=0,prec=(1,3,4),pAn=15,pAz=6)
    j+=fm("h_C34mix",how=0,fmt2=[1,2,3,4],dn=[-1,0,1],M2=[1],prec=(2,),pAn=15,pAz=6,blocks=[11])
    j+=fm("h_C34fmt",how=[0,1,2,3,4,5,6],prec=(2,),pAn=15,pAz=6,blocks=[11])
    j+=X("h_C34unsup",fmt=D,N=2,prec=2,what=[0,1,2,3,4,5,6],pAn=15,pBn=15,pCn=15)
    j+=X("h_C34unsup",fmt=B,N=2,blocks=11,prec=2,what=[0,1,2,3,4,5,6,7,8,9,14,15,16,17],pAn=15,pBn=15,pCn=15)
    j+=X("h_C34unsup",fmt=E,N=2,prec=2,what=[9],pAn=15,pBn=15,pCn=15)
    j+=X("h_C34unsup",fmt=C,N=2,prec=2,what=[0,1,2,3,4,5,6,8,9,12,13,15],pAn=15,pBn=15,pCn=15)
    j+=fm("h_C34null",what=list(range(56)),prec=(2,),pAn=15,blocks=[11])
    j+=fm("h_C34file",how=[0,1],prec=(2,4),pAn=15,pAz=[0,6],blocks=[11])
    j+=[x for f in (D,E,B,C) for x in X("h_C34cap",fmt=f,N=3,M=[1,2],prec=2,blocks=[111] if f==B else [0],op=ops(f,("READ",)),pAz=OD3,pBz=OD3,pCz=OD3,psA=4,psB=4,psC=4)]
    j+=[x for f in (D,E,B,C) for x in X("h_C34cap",fmt=f,N=3,M=2,prec=2,blocks=[111] if f==B else [0],op=ops(f,("READ",)),pAz=T3,pBz=CYC3,pCz=OD3,psA=4,psB=4,psC=4)]
    j+=[x for f in (D,E,B,C) for M in ((2,),(2,3)) for x in X("h_C34mix",fmt=f,fmt2=f,N=3,how=0,dn=[0,1],M=[2] if len(M)>1 else [3],M2=list(M),prec=2,pAn=FULL3,pAz=T3,blocks=[12] if f==B else [0])]+[x for f in (D,E,B,C) for x in X("h_C34mix",fmt=f,fmt2=f,N=2,how=1,dn=[-1,1,2],M2=1,prec=[2,4],pAn=15,blocks=[11] if f==B else [0])]
    NOD=z3(1,2,10,12,20,21); NOD2=z3(1,12,20) # full rows without a diagonal entry
    j+=[x for f in (E,B,C) for m,pz in ((2,NOD),(1,NOD2)) for x in X("h_C34cap",fmt=f,N=3,M=m,prec=[2,4],blocks=[111] if f==B else [0],op=ops(f,("READ","DIAGZ","INV")),pAz=pz,pBz=pz,pCz=pz,psA=4,psB=4,psC=4)]
    j+=[x for f in (E,B,C) for x in X("h_C34cap",fmt=f,N=3,M=2,Mb=3,Mc=3,prec=2,blocks=[111] if f==B else [0],op=ops(f,("READ",)),pAz=T3,pBz=CYC3,pCz=OD3,psA=4,psB=4,psC=4)]
    j+=[x for f in (E,B,C) for x in X("h_C34cap",fmt=f,N=3,M=3,Mb=2,Mc=2,prec=2,blocks=[111] if f==B else [0],op=ops(f,("READ",)),pAz=T3,pBz=CYC3,pCz=OD3,psA=4,psB=4,psC=4)]
    j+=X("h_C34cap",fmt=B,N=3,M=2,mb=2,prec=2,blocks=111,op=ops(B),pAz=T3,pBz=CYC3,pCz=OD3,psA=4,psB=4,psC=4)+X("h_C34cap",fmt=B,N=3,M=1,mb=1,prec=2,blocks=111,op=ops(B),pAz=OD3,pBz=OD3,pCz=OD3,psA=4,psB=4,psC=4)
    j+=X("h_C34cap",fmt=B,N=4,M=2,mb=2,prec=4 if q else [2,4],blocks=1111,op=[ON[o] for o in ("ADD","TR","TRNEW","SETROW","SETDIAG","EXPIMP")] if q else ops(B,("READ",)),pAz=z4(0,1,11,13,30,32),pBz=z4(1,10,12,33),pCz=z4(3,12,21,30),psA=4,psB=4,psC=4)
    if not q:
        j+=fm("h_C34idx",how=0,N=4,prec=(1,2,3,4),psA=4,pAz=[0,z4(0,3,10,22,31)])+fm("h_C34null",what=list(range(56)),prec=(1,3,4),pAn=15,blocks=[11])
        j+=[x for f in (D,E,B,C) for x in X("h_C34cap",fmt=f,N=4,M=[1,2,3],prec=[2,4],blocks=[22] if f==B else [0],op=ops(f,("READ","DIAGZ","INV")),pAz=z4(0,12,20,33),pBz=z4(1,10,23,32),pCz=z4(0,13,31,22),psA=4,psB=4,psC=4)]
    return dict(jobs=j,bounds="every 32-bit index; matrices of size 1 to 4; every operation with results that do not fit the rows; every unknown format and precision from -4 to 12; every operation a format does not offer; every function with a matrix that was never created; files with any of 8 index values")
@spec("C35")
def c35(t):
    q=t=="quick"
    j=X("h_C35",how=0,prec=2,N=2,lo=-3,hi=[200 if q else 2000])+X("h_C35",how=[1,2],prec=2,N=2,max=[12 if q else 40])
    j+=X("h_C35",how=4,prec=2,N=2)
    if not q: j+=X("h_C35",how=0,prec=2,N=2,lo=2147395500,hi=2147395600)
    return dict(jobs=j,bounds="integer square root of every argument up to 200 (thorough 2000 and 2147395500..2147395600); allocations of every size up to 12 (thorough 40) bytes; four request sizes of 2^47 bytes and more, which must be refused, in all three allocators (two of them with small low halves)")
# ellblock rows that hold fewer blocks than there are (MB < NB), and operands whose rows hold different numbers of blocks
NARROW=["C%02d"%k for k in (1,2,3,4,5,6,7,8,10,11,13,14,15,16,17,19,29)]
def narrow(pid,jobs):
    o=[]; seen=set()
    for j in jobs:
        p=j["params"]
        if p.get("fmt")!=B or j.get("mpi") or "blocks" not in p or p.get("N") not in (2,3,4) or p.get("threads") or p.get("thr") or p.get("rc") or p.get("prec") not in (2,4): continue
        if pid=="C19" and p.get("how")==3: continue # fills the matrix
        p={k:v for k,v in p.items() if k not in ("pAz","pBz","pCz","pAn","pBn","pCn","psA","psB","psC","M","MB","MC","build","stale")}
        for c in (dict(M=2),dict(M=2,MB=4,MC=4),dict(M=4,MB=2,MC=4),dict(M=2,MB=2,MC=4)):
            if len(c)>1 and p["prec"]!=2: continue
            q=dict(p,N=4,mb=2,mbx=1,blocks=1111,pAz=z4(0,1,11,22,32,33),pBz=z4(0,10,11,23,32),pCz=z4(1,10,22,23,33),pAn=0xffff,pBn=0xffff,pCn=0xffff,stale=0,**c)
            n=pid+" narrow "+" ".join("%s=%s"%(k,q[k]) for k in sorted(q) if k not in ("blocks","fmt","N","mb","mbx","pAz","pBz","pCz","pAn","pBn","pCn"))
            if n not in seen: seen.add(n); o.append(dict(j,params=q,name=n))
    return o
for _p in NARROW: SPECS[_p]=(lambda f,p: lambda t: (lambda d: dict(d,jobs=d["jobs"]+narrow(p,d["jobs"]),bounds=d["bounds"]+"; ellblock rows of 2 out of 4 blocks, alone and next to matrices with room for all 4"))(f(t)))(SPECS[_p],_p)
# complex matrices with purely imaginary entries: a test of the real part alone takes them for zeros
IMAG=["C%02d"%k for k in (1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,17,19,20,29)]
def imag(pid,jobs,q):
    o=[]; seen=set()
    for j in jobs:
        p=j["params"]
        if p.get("prec") not in ((4,) if q else (3,4)) or j.get("mpi") or p.get("N") not in (2,3) or p.get("threads") or p.get("rc") or p.get("mb") or any(p.get(k,p["N"])<p["N"] for k in ("M","MB","MC")): continue
        if pid=="C20": # the graph of a matrix is that of a symmetric pattern
            n=j["name"]+" imag"; o.append(dict(j,params=dict(p,nim=1),name=n)); continue
        p={k:v for k,v in p.items() if k not in ("pAz","pBz","pCz","pAn","pBn","pCn","psA","psB","psC","build","sp","wide")}
        m=(1<<p["N"]**2)-1
        q_=dict(p,nim=1,pAn=m,pBn=m,pCn=m,pAz=2 if p["N"]==2 else U3,pBz=4 if p["N"]==2 else ARR3,pCz=0)
        if p["fmt"]==B and p["N"]==2 and pid in ("C05","C06","C07"): q_.update(pAz=12,pBz=5,pCz=9) # block norms of many unknowns are hard
        n=pid+" imag "+" ".join("%s=%s"%(k,q_[k]) for k in sorted(q_) if k not in ("pAz","pBz","pCz","pAn","pBn","pCn","nim"))
        if n not in seen: seen.add(n); o.append(dict(j,params=q_,name=n))
    return o
for _p in IMAG: SPECS[_p]=(lambda f,p: lambda t: (lambda d: dict(d,jobs=d["jobs"]+imag(p,d["jobs"],t=="quick"),bounds=d["bounds"]+"; complex matrices whose entries are partly purely imaginary"))(f(t)))(SPECS[_p],_p)
@spec("C40")
def c40(t):
    """the build with -DBML_ELLBLOCK_USE_MEMPOOL: the other properties' ellblock jobs on that code"""
    q=t=="quick"; j=[]
    for p in ("C01","C02","C03","C04","C05","C06","C07","C08","C10","C11","C13","C14","C15","C16","C17","C19","C21","C22","C23","C26","C27","C28","C29","C33"):
        for x in SPECS[p]("quick")["jobs"]:
            a=x["params"]
            if a.get("fmt")!=B or x.get("mpi") or a.get("threads") or a.get("prec") not in ((2,) if q else (2,4)): continue
            if p in ("C21","C23") and q and a.get("steps",1)>1 and not a.get("cap"): continue
            j.append(dict(x,params=dict(a,pool=1),name="C40 pool "+x["name"]))
    return dict(jobs=j,budget=70 if q else 700,bounds="the bounds of the ellblock jobs of C01 to C33 in double real (thorough: and double complex)")
@spec("ADHOC")
def adhoc(t):
    import os
    j=[]
    for l in open(os.environ["ADHOC"]):
        l=l.strip()
        if not l or l[0]=="#": continue
        if l[0]=="=": j+=eval(l[1:],globals()); continue
        e,p=l.split(None,1)
        j+=X(e,mpi="mpi:" in l,**{k:[int(x) for x in v.split("/")] for k,v in (kv.split("=") for kv in p.replace("mpi:","").split(","))})
    return dict(jobs=j,bounds="ad hoc",budget=300)
