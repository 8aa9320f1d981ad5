#ifndef LIB_H
#define LIB_H
#include "sx.h"
#include "bml.h"
#include "bml_logger.h"
#include "bml_adjungate_triangle.h"
#include "bml_transpose_triangle.h"
#include "ellblock/bml_allocate_ellblock.h"
#include <complex.h>
#include <math.h>
#include <stdlib.h>
#include <string.h>
#define MX 12
/* a dense reference image */
typedef struct { int N; double re[MX*MX], im[MX*MX]; } dm;
extern int FMT, PREC, N, CX;       /* job parameters: storage format, precision, size, complex? */
void setup(void);                  /* reads job parameters, initialises the library, sets ellblock blocks */
int iscx(int prec);
size_t esz(int prec);
void put(void *buf, int k, int prec, double re, double im);
double getre(const void *buf, int k, int prec);
double getim(const void *buf, int k, int prec);
void *scal(int prec, double re, double im); /* heap scalar of that precision */
/* symbolic matrix; zmask bits: entry is zero, nmask bits: entry is known to be non-zero, rest anything */
void symm(dm *A, const char *name, int n, int cx, unsigned zmask, unsigned nmask);
void symall(dm *A, const char *name, int n, int cx, int mask);
void symA(dm *A, const char *name);        /* using job parameters pz/pn */
void zerod(dm *A, int n);
void copyd(dm *d, const dm *s);
bml_matrix_t *mk(const dm *A, int fmt, int prec, int M, int build);
bml_matrix_t *mkA(const dm *A);            /* FMT, PREC, M=param, build=param */
bml_matrix_t *stale(const char *name);     /* a matrix already holding unrelated entries (job parameter stale) */
void rd(bml_matrix_t *A, dm *out);
void chk(const dm *got, const dm *want, double thr, const char *msg);
void chkm(bml_matrix_t *A, const dm *want, double thr, const char *msg);
void wf(bml_matrix_t *A, const char *msg); /* structural invariants of the stored form */
void obsm(const char *name, const dm *A);
void kid(dm *A, double s);
void mulz(double ar, double ai, double br, double bi, double *r, double *i);
void mulacc(double ar, double ai, double br, double bi, double *r, double *i);
void dmul(dm *C, const dm *A, const dm *B);
void dlin(dm *C, double a, const dm *A, double b, const dm *B);
double thrparam(void);                     /* threshold: 0, or symbolic positive (job parameter thr) */
#endif
