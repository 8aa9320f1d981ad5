/* Contract stand-ins for LAPACK: they record the matrix they are handed (read the way LAPACK reads it) and return arbitrary
   values constrained only by the routine's contract, so what the library does with them is decided for every solver. */
#include "lapack_stub.h"
#include "sx.h"
int lp_n, lp_called; double lp_mr[64], lp_mi[64], lp_vr[64], lp_vi[64], lp_w[8];
static void input(const char *uplo, int n, const void *a, int lda, int cx, int sz, int general)
{
    lp_n = n; lp_called++;
    int up = *uplo == 'U' || *uplo == 'u';
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
    {
        int r = i, c = j, cj = 0;
        if (!general && (up ? i > j : i < j)) { r = j; c = i; cj = 1; }
        int k = r + c * lda; double re, im = 0;
        if (sz == 4) { re = ((const float *) a)[cx ? 2 * k : k]; if (cx) im = ((const float *) a)[2 * k + 1]; }
        else { re = ((const double *) a)[cx ? 2 * k : k]; if (cx) im = ((const double *) a)[2 * k + 1]; }
        if (cj) im = -im;
        if (!general && i == j) im = 0;
        lp_mr[i + j * n] = re; lp_mi[i + j * n] = im;
    }
}
static void wr(void *z, int k, int cx, int sz, double re, double im)
{
    if (sz == 4) { if (cx) { ((float *) z)[2 * k] = re; ((float *) z)[2 * k + 1] = im; } else ((float *) z)[k] = re; }
    else { if (cx) { ((double *) z)[2 * k] = re; ((double *) z)[2 * k + 1] = im; } else ((double *) z)[k] = re; }
}
static void eig(const char *jobz, const char *uplo, int n, const void *a, int lda, void *w, void *z, int ldz, int cx, int sz)
{
    sx_assert(*jobz == 'V' || *jobz == 'v', "eigen-solver not asked for eigenvectors", 0, 0);
    input(uplo, n, a, lda, cx, sz, 0);
    for (int j = 0; j < n; j++)
    {
        lp_w[j] = sx_real("lw", ANY); wr(w, j, 0, sz, lp_w[j], 0);
        if (j) sx_assume(lp_w[j] >= lp_w[j - 1]);
        for (int i = 0; i < n; i++) { int vm = sx_param("vm", ANY), vz = sx_param("vz", 0) >> (i + j * n) & 1; double re = vz ? 0 : sx_real("lv", vm), im = cx && !vz ? sx_real("lv", vm) : 0; lp_vr[i + j * n] = re; lp_vi[i + j * n] = im; wr(z, i + j * ldz, cx, sz, re, im); }
    }
}
#define SYEVD(NAME,T) void NAME(char *jobz, char *uplo, int *n, T *a, int *lda, T *w, T *work, int *lwork, int *iwork, int *liwork, int *info) { \
    if (*lwork == -1 || *liwork == -1) { work[0] = 1 + 6 * *n + 2 * *n * *n; iwork[0] = 3 + 5 * *n; *info = 0; return; } \
    sx_assert(*lda >= *n, "LAPACK leading dimension too small", *lda, *n); \
    sx_assert(*lwork >= 1 + 6 * *n + 2 * *n * *n && *liwork >= 3 + 5 * *n, "LAPACK workspace too small", *lwork, *liwork); \
    for (int i = 0; i < *lwork; i++) work[i] = 0; for (int i = 0; i < *liwork; i++) iwork[i] = 0; \
    eig(jobz, uplo, *n, a, *lda, w, a, *lda, 0, sizeof(T)); *info = 0; }
SYEVD(ssyevd_, float) SYEVD(dsyevd_, double)
#define SYEV(NAME,T) void NAME(char *jobz, char *uplo, int *n, T *a, int *lda, T *w, T *work, int *lwork, int *info) { \
    if (*lwork == -1) { work[0] = 3 * *n; *info = 0; return; } \
    sx_assert(*lwork >= 3 * *n - 1, "LAPACK workspace too small", *lwork, 0); for (int i = 0; i < *lwork; i++) work[i] = 0; \
    eig(jobz, uplo, *n, a, *lda, w, a, *lda, 0, sizeof(T)); *info = 0; }
SYEV(ssyev_, float) SYEV(dsyev_, double)
#define HEEVR(NAME,T) void NAME(char *jobz, char *range, char *uplo, int *n, T *a, int *lda, T *vl, T *vu, int *il, int *iu, T *abstol, int *m, T *w, T *z, int *ldz, int *isuppz, T *work, int *lwork, T *rwork, int *lrwork, int *iwork, int *liwork, int *info) { \
    if (*lwork == -1 || *lrwork == -1 || *liwork == -1) { work[0] = 2 * *n; rwork[0] = 24 * *n; iwork[0] = 10 * *n; *info = 0; return; } \
    sx_assert(*range == 'A' || *range == 'a', "eigen-solver not asked for all eigenvalues", 0, 0); \
    sx_assert(*lwork >= 2 * *n && *lrwork >= 24 * *n && *liwork >= 10 * *n, "LAPACK workspace too small", *lwork, *lrwork); \
    for (int i = 0; i < 2 * *lwork; i++) work[i] = 0; for (int i = 0; i < *lrwork; i++) rwork[i] = 0; for (int i = 0; i < *liwork; i++) iwork[i] = 0; for (int i = 0; i < 2 * *n; i++) isuppz[i] = 1; \
    eig(jobz, uplo, *n, a, *lda, w, z, *ldz, 1, sizeof(T)); *m = *n; *info = 0; }
HEEVR(cheevr_, float) HEEVR(zheevr_, double)
static int rf_n; static void *rf_a;
#define GETRF(NAME,T,CX) void NAME(int *m, int *n, T *a, int *lda, int *ipiv, int *info) { \
    sx_assert(*m == *n && *lda >= *n, "factorisation of a non-square matrix", *m, *n); \
    input("U", *n, a, *lda, CX, sizeof(T), 1); rf_n = *n; rf_a = a; for (int i = 0; i < *n; i++) ipiv[i] = 1000 + i; *info = 0; }
GETRF(sgetrf_, float, 0) GETRF(dgetrf_, double, 0) GETRF(cgetrf_, float, 1) GETRF(zgetrf_, double, 1)
#define GETRI(NAME,T,CX) void NAME(int *n, T *a, int *lda, int *ipiv, T *work, int *lwork, int *info) { \
    if (*lwork == -1) { work[0] = *n; *info = 0; return; } \
    sx_assert(*n == rf_n && (void *) a == rf_a, "inversion does not follow the factorisation", *n, rf_n); \
    sx_assert(*lwork >= *n, "LAPACK workspace too small", *lwork, *n); for (int i = 0; i < (CX + 1) * *lwork; i++) work[i] = 0; \
    for (int i = 0; i < *n; i++) sx_assert(ipiv[i] == 1000 + i, "pivots changed between the calls", i, 0); \
    for (int j = 0; j < *n; j++) for (int i = 0; i < *n; i++) { double re = sx_real("li", ANY), im = CX ? sx_real("li", ANY) : 0; lp_vr[i + j * *n] = re; lp_vi[i + j * *n] = im; wr(a, i + j * *lda, CX, sizeof(T), re, im); } *info = 0; }
GETRI(sgetri_, float, 0) GETRI(dgetri_, double, 0) GETRI(cgetri_, float, 1) GETRI(zgetri_, double, 1)
