/* Reference BLAS used in place of the vendor library: the routines the library calls, written from the BLAS specification. */
#include <complex.h>
#define GEMM(NAME,T,CONJ) void NAME(char*ta,char*tb,int*m,int*n,int*k,T*alpha,T*A,int*lda,T*B,int*ldb,T*beta,T*C,int*ldc){ \
  int na=(*ta=='N'||*ta=='n'),nb=(*tb=='N'||*tb=='n'),ca=(*ta=='C'||*ta=='c'),cb=(*tb=='C'||*tb=='c'); \
  for(int j=0;j<*n;j++) for(int i=0;i<*m;i++){ T s=0; for(int l=0;l<*k;l++){ T a=na?A[i+l**lda]:A[l+i**lda]; T b=nb?B[l+j**ldb]:B[j+l**ldb]; if(ca) a=CONJ(a); if(cb) b=CONJ(b); s+=a*b; } \
    if(*beta==0) C[i+j**ldc]=*alpha*s; else C[i+j**ldc]=*alpha*s+*beta*C[i+j**ldc]; } }
#define ID(x) (x)
GEMM(sgemm_,float,ID) GEMM(dgemm_,double,ID) GEMM(cgemm_,float complex,conjf) GEMM(zgemm_,double complex,conj)
#define AXPY(NAME,T) void NAME(int*n,T*a,T*x,int*ix,T*y,int*iy){ for(int i=0;i<*n;i++) y[i**iy]+=*a*x[i**ix]; }
AXPY(saxpy_,float) AXPY(daxpy_,double) AXPY(caxpy_,float complex) AXPY(zaxpy_,double complex)
#define SCAL(NAME,T) void NAME(int*n,T*a,T*x,int*ix){ for(int i=0;i<*n;i++) x[i**ix]*=*a; }
SCAL(sscal_,float) SCAL(dscal_,double) SCAL(cscal_,float complex) SCAL(zscal_,double complex)
#define LACPY(NAME,T) void NAME(char*u,int*m,int*n,T*A,int*lda,T*B,int*ldb){ for(int j=0;j<*n;j++) for(int i=0;i<*m;i++) B[i+j**ldb]=A[i+j**lda]; }
LACPY(slacpy_,float) LACPY(dlacpy_,double) LACPY(clacpy_,float complex) LACPY(zlacpy_,double complex)
