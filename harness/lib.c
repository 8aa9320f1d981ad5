#include "lib.h"
#include "ellpack/bml_types_ellpack.h"
#include "csr/bml_types_csr.h"
#include "ellblock/bml_types_ellblock.h"
#include "dense/bml_types_dense.h"
int FMT, PREC, N, CX;
void setup(void)
{
    FMT = sx_param("fmt", 1); PREC = sx_param("prec", 2); N = sx_param("N", 2); CX = PREC >= 3;
#if SX_MPI
    bml_init(MPI_COMM_WORLD);
#else
    bml_init();
#endif
    if (sx_param("blocks", 0) || FMT == 4 || sx_param("fmt2", 0) == ellblock || FMT == ellblock)
    {
        /* block sizes as decimal digits, e.g. 12 = blocks of 1 and 2 */
        int b = sx_param("blocks", 0), bs[8], nb = 0, tmp[8];
        if (b) { while (b) { tmp[nb++] = b % 10; b /= 10; } for (int i = 0; i < nb; i++) bs[i] = tmp[nb - 1 - i]; bml_set_block_sizes(bs, nb, sx_param("mb", nb)); }
    }
}
int iscx(int p) { return p == single_complex || p == double_complex; }
size_t esz(int p) { return p == single_real ? sizeof(float) : p == double_real ? sizeof(double) : p == single_complex ? sizeof(float complex) : sizeof(double complex); }
void put(void *buf, int k, int p, double re, double im)
{
    switch (p) {
    case single_real: ((float *) buf)[k] = re; break;
    case double_real: ((double *) buf)[k] = re; break;
    case single_complex: ((float *) buf)[2 * k] = re; ((float *) buf)[2 * k + 1] = im; break;
    case double_complex: ((double *) buf)[2 * k] = re; ((double *) buf)[2 * k + 1] = im; break;
    }
}
double getre(const void *buf, int k, int p)
{
    switch (p) {
    case single_real: return ((const float *) buf)[k];
    case double_real: return ((const double *) buf)[k];
    case single_complex: return ((const float *) buf)[2 * k];
    default: return ((const double *) buf)[2 * k];
    }
}
double getim(const void *buf, int k, int p)
{
    switch (p) {
    case single_complex: return ((const float *) buf)[2 * k + 1];
    case double_complex: return ((const double *) buf)[2 * k + 1];
    default: return 0;
    }
}
void *scal(int p, double re, double im) { void *b = malloc(esz(p)); put(b, 0, p, re, im); return b; }
void symm(dm *A, const char *name, int n, int cx, unsigned zm, unsigned nm)
{
    A->N = n;
    for (int i = 0; i < n * n; i++)
    {
        A->re[i] = 0; A->im[i] = 0;
        if (zm >> i & 1) continue;
        if (cx) { A->re[i] = sx_real(name, (nm >> i & 1) ? NZ : ANY); A->im[i] = sx_real(name, ANY); }
        else A->re[i] = sx_real(name, (nm >> i & 1) ? NZ : ANY);
    }
}
void symall(dm *A, const char *name, int n, int cx, int mask)
{
    A->N = n;
    for (int i = 0; i < n * n; i++) { A->re[i] = sx_real(name, mask); A->im[i] = cx ? sx_real(name, mask) : 0; }
}
/* parameters p<name>z (always zero) and p<name>n (known non-zero), by matrix name */
static void symA0(dm *A, const char *name);
/* nim=1: every other entry of a complex matrix, nim=2: every entry is purely imaginary */
void symA(dm *A, const char *name)
{
    int nim = CX ? sx_param("nim", 0) : 0; symA0(A, name);
    if (nim) for (int i = 0; i < N * N; i++) if (nim == 2 || (i + i / N) % 2) if (!(A->re[i] == 0 && A->im[i] == 0)) { A->re[i] = 0; A->im[i] = sx_real(name, NZ); }
}
static void symA0(dm *A, const char *name)
{
    char z[8] = "p?z", m[8] = "p?n", s[8] = "ps?"; z[1] = m[1] = s[2] = name[0];
    int rc = sx_param("rc", 0);
    if (rc) /* A has one full row, B one full column (large blocks: every term of the inner product, one result) */
    {
        zerod(A, N);
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (name[0] == 'A' ? i == rc - 1 : name[0] == 'B' ? j == N - rc : i == j && (i == 0 || i == N - 1)) { A->re[i * N + j] = sx_real(name, POS); if (CX) A->im[i * N + j] = sx_real(name, ANY); }
        return;
    }
    int sg = sx_param(s, 0), wide = sx_param("wide", 0);
    if (wide) /* arrow: one full row (row wide-1), one full column (0) and the diagonal are positive; B is its mirror image */
    {
        int w = name[0] == 'B' ? 0 : wide - 1; zerod(A, N);
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (i == w || j == (name[0] == 'B' ? N - 1 : 0) || i == j) { A->re[i * N + j] = sx_real(name, POS); if (CX) A->im[i * N + j] = sx_real(name, ANY); }
        return;
    }
    int sp = sx_param("sp", 0); /* a scattered pattern for any size, different for each matrix */
    if (sp)
    {
        int k = name[0] - 'A'; zerod(A, N);
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
        {
            int on = sp == 1 ? (k == 0 ? i == j || j == (i + 1) % N || j == (3 * i + 2) % N : k == 1 ? j == (2 * i + 1) % N || j == N - 1 - i : j == (i + N - 1) % N || j == (5 * i) % N)
                : (k == 0 ? (i > 0 && j == i - 1) || (i % 3 == 0 && j == N - 1) || (i == N - 1) : k == 1 ? (i == j && i % 2) || j == N / 2 : i == 0 || i == j);
            if (on) { A->re[i * N + j] = sx_real(name, sg ? sg : POS); if (CX) A->im[i * N + j] = sx_real(name, ANY); }
        }
        return;
    }
    if (sg) { symall(A, name, N, CX, sg); unsigned zz = sx_param(z, 0); for (int i = 0; i < N * N; i++) if (zz >> i & 1) A->re[i] = A->im[i] = 0; }
    else symm(A, name, N, CX, sx_param(z, 0), sx_param(m, 0));
}
void zerod(dm *A, int n) { A->N = n; for (int i = 0; i < n * n; i++) A->re[i] = A->im[i] = 0; }
void copyd(dm *d, const dm *s) { d->N = s->N; for (int i = 0; i < s->N * s->N; i++) { d->re[i] = s->re[i]; d->im[i] = s->im[i]; } }
/* build: 0 import (row-major), 1 import (column-major), 2 set_element_new in reversed column order, 3 set_element row by row,
   4 set_row, 5 set_element_new for every entry, even zero ones (explicit zeros) */
static bml_matrix_t *mk0(const dm *A, int fmt, int prec, int M, int build);
/* ellblock matrices with room for more blocks in a row than the others: only a conversion makes them */
static bml_matrix_t *widen(bml_matrix_t *B, int fmt, int prec, int M)
{
    if (fmt == ellblock && sx_param("mbx", 0) && M > sx_param("mb", M)) { bml_matrix_t *W = bml_convert(B, ellblock, prec, M, sequential); bml_deallocate(&B); B = W; }
    return B;
}
bml_matrix_t *mk(const dm *A, int fmt, int prec, int M, int build)
{
    return widen(mk0(A, fmt, prec, M, build), fmt, prec, M);
}
static bml_matrix_t *mk0(const dm *A, int fmt, int prec, int M, int build)
{
    int n = A->N; bml_matrix_t *B;
    if (build <= 1)
    {
        void *buf = malloc(n * n * esz(prec));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) put(buf, build == 1 ? j * n + i : i * n + j, prec, A->re[i * n + j], A->im[i * n + j]);
        B = bml_import_from_dense(fmt, prec, build == 1 ? dense_column_major : dense_row_major, n, M, buf, 0.0, sequential);
        free(buf); return B;
    }
    B = bml_zero_matrix(fmt, prec, n, M, sequential);
    char s[16];
    if (build == 4)
    {
        void *row = malloc(n * esz(prec));
        for (int i = 0; i < n; i++) { for (int j = 0; j < n; j++) put(row, j, prec, A->re[i * n + j], A->im[i * n + j]); bml_set_row(B, i, row, 0.0); }
        free(row); return B;
    }
    for (int i = 0; i < n; i++) for (int jj = 0; jj < n; jj++)
    {
        int j = build == 2 ? n - 1 - jj : jj;
        double re = A->re[i * n + j], im = A->im[i * n + j];
        if (build == 2 && re == 0 && im == 0) continue;
        put(s, 0, prec, re, im);
        if (build == 3) bml_set_element(B, i, j, s); else bml_set_element_new(B, i, j, s);
    }
    return B;
}
bml_matrix_t *mkA(const dm *A) { return mk(A, FMT, PREC, sx_param("M", A->N), sx_param("build", 0)); }
/* destination contents: 0 empty, 1 holds symbolic non-zero entries everywhere, 2 a partial pattern */
bml_matrix_t *stale(const char *name)
{
    int st = sx_param("stale", 1), M = sx_param("MC", sx_param("M", N)); dm S;
    if (!st) return widen(bml_zero_matrix(FMT, PREC, N, M, sequential), FMT, PREC, M);
    if (st == 1) symall(&S, name, N, CX, POS);
    else { symm(&S, name, N, CX, st == 2 ? 0x55555555u : 0xAAAAAAAAu, 0xffffffffu); }
    return mk(&S, FMT, PREC, M, 0);
}
void rd(bml_matrix_t *A, dm *out)
{
    int n = bml_get_N(A), p = bml_get_precision(A); out->N = n;
    void *b = bml_export_to_dense(A, dense_row_major);
    for (int i = 0; i < n * n; i++) { out->re[i] = getre(b, i, p); out->im[i] = getim(b, i, p); }
    bml_free_memory(b);
}
void chk(const dm *g, const dm *w, double thr, const char *msg)
{
    sx_assert(g->N == w->N, msg, g->N, w->N);
    int n = w->N;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int k = i * n + j; sx_thr(g->re[k], g->im[k], w->re[k], w->im[k], thr, 1, msg, i, j); }
}
void chkm(bml_matrix_t *A, const dm *want, double thr, const char *msg) { dm g; rd(A, &g); chk(&g, want, thr, msg); obsm("o", &g); }
void obsm(const char *name, const dm *A) { for (int i = 0; i < A->N * A->N; i++) { sx_observe(name, A->re[i]); sx_observe(name, A->im[i]); } }
/* structural invariants of sparse storage: column indices in range and distinct, counts within capacity */
void wf(bml_matrix_t *A, const char *msg)
{
    switch (bml_get_type(A)) {
    case ellpack: { bml_matrix_ellpack_t *E = A;
        for (int i = 0; i < E->N; i++) { int n = E->nnz[i]; sx_assert(n >= 0 && n <= E->M, msg, i, n); if (n < 0 || n > E->M) continue;
            for (int a = 0; a < n; a++) { int c = E->index[i * E->M + a]; sx_assert(c >= 0 && c < E->N, msg, i, c); for (int b = 0; b < a; b++) sx_assert(c != E->index[i * E->M + b], msg, i, c); } }
        break; }
    case csr: { bml_matrix_csr_t *E = A;
        for (int i = 0; i < E->N_; i++) { csr_sparse_row_t *r = E->data_[i]; int n = r->NNZ_; sx_assert(n >= 0 && n <= r->alloc_size_, msg, i, n); 
            for (int a = 0; a < n; a++) { int c = r->cols_[a]; sx_assert(c >= 0 && c < E->N_, msg, i, c); for (int b = 0; b < a; b++) sx_assert(c != r->cols_[b], msg, i, c); } }
        break; }
    case ellblock: { bml_matrix_ellblock_t *E = A;
        for (int i = 0; i < E->NB; i++) { int n = E->nnzb[i]; sx_assert(n >= 0 && n <= E->MB, msg, i, n); if (n < 0 || n > E->MB) continue;
            for (int a = 0; a < n; a++) { int c = E->indexb[i * E->MB + a]; sx_assert(c >= 0 && c < E->NB, msg, i, c); for (int b = 0; b < a; b++) sx_assert(c != E->indexb[i * E->MB + b], msg, i, c); } }
        break; }
    default: break;
    }
}
void mulz(double ar, double ai, double br, double bi, double *r, double *i) { *r = ar * br - ai * bi; *i = ar * bi + ai * br; }
void mulacc(double ar, double ai, double br, double bi, double *r, double *i) { *r += ar * br - ai * bi; *i += ar * bi + ai * br; }
void dmul(dm *C, const dm *A, const dm *B)
{
    int n = A->N; C->N = n;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double r = 0, m = 0; for (int k = 0; k < n; k++) mulacc(A->re[i * n + k], A->im[i * n + k], B->re[k * n + j], B->im[k * n + j], &r, &m); C->re[i * n + j] = r; C->im[i * n + j] = m; }
}
void dlin(dm *C, double a, const dm *A, double b, const dm *B)
{
    int n = A->N; C->N = n;
    for (int i = 0; i < n * n; i++) { C->re[i] = a * A->re[i] + b * B->re[i]; C->im[i] = a * A->im[i] + b * B->im[i]; }
}
void kid(dm *A, double s) { zerod(A, A->N); for (int i = 0; i < A->N; i++) A->re[i * A->N + i] = s; }
/* thr: 0 -> zero, 1 -> symbolic positive, 2 -> symbolic >= 0 */
double thrparam(void) { int t = sx_param("thr", 0); return t == 0 ? 0.0 : sx_real("thr", t == 1 ? POS : (POS | ZERO)); }
