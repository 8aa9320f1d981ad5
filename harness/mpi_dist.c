/* C30: matrices distributed over a process grid. Every rank runs this harness; inputs are the same on all ranks. */
#include "lib.h"
#include <stdio.h>
#include "bml_parallel.h"
#include "bml_introspection.h"
#include "bml_normalize.h"
#include "bml_element_multiply.h"
static int RK, NP, P, LN;
static void dsetup(void) { setup(); RK = bml_getMyRank(); NP = bml_getNRanks(); for (P = 1; P * P < NP; P++); LN = N / P; }
static bml_matrix_t *imp(const dm *A, int M)
{
    void *buf = 0; int ord = sx_param("ord", 0);
    if (RK == 0) { buf = malloc(N * N * esz(PREC)); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) put(buf, ord ? j * N + i : i * N + j, PREC, A->re[i * N + j], A->im[i * N + j]); }
    bml_matrix_t *X = bml_import_from_dense(FMT, PREC, ord ? dense_column_major : dense_row_major, N, M, buf, 0.0, distributed); free(buf); return X;
}
/* the rank's own block, and the gathered matrix on rank 0 */
static void dchk(bml_matrix_t *A, const dm *W, const char *msg)
{
    dm b, g; b.N = LN; int r0 = (RK / P) * LN, c0 = (RK % P) * LN;
    sx_assert(bml_get_N(A) == N && bml_get_distribution_mode(A) == distributed && bml_get_deep_type(A) == FMT && bml_get_precision(A) == PREC, "a distributed matrix reports another shape", bml_get_N(A), N);
    for (int i = 0; i < LN; i++) for (int j = 0; j < LN; j++) { b.re[i * LN + j] = W->re[(r0 + i) * N + c0 + j]; b.im[i * LN + j] = W->im[(r0 + i) * N + c0 + j]; }
    bml_matrix_t *L = bml_get_local_matrix(A); wf(L, "malformed storage of a local block"); chkm(L, &b, 0, msg);
    if (sx_param("noexp", 0)) return;
    int ord = sx_param("ord", 0); void *d = bml_export_to_dense(A, ord ? dense_column_major : dense_row_major);
    if (RK == 0) { g.N = N; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int k = ord ? j * N + i : i * N + j; g.re[i * N + j] = getre(d, k, PREC); g.im[i * N + j] = getim(d, k, PREC); } chk(&g, W, 0, msg); bml_free_memory(d); }
    else sx_assert(d == NULL, "a rank other than the first gets an exported matrix", RK, 0);
}
static void addid(dm *A, double s) { for (int i = 0; i < N; i++) A->re[i * N + i] += s; }
static const char *MSG[] = { "import", "add", "add_norm", "add_identity", "scale_add_identity", "multiply", "multiply_x2", "multiply_AB", "scale", "scale_inplace", "transpose", "transpose_new", "trace", "trace_mult", "sum_squares", "sum_squares2", "sum_AB", "fnorm", "normalize", "gershgorin", "threshold", "threshold_new", "copy", "copy_new", "set_row", "set_diagonal", "identity_matrix", "zero_matrix", "write/read", "convert", "get_sparsity", "clear", "scale_new", "chain", "import/export" };
#define F(i, j) ((i) * N + (j))
void h_C30(void)
{
    dsetup(); int op = sx_param("op", 0), M = sx_param("M", N); dm A, B, C, W; symA(&A, "A"); zerod(&W, N); copyd(&W, &A); int leaks = sx_param("leaks", 0), mark = 0, live = 0; if (leaks) { bml_matrix_t *K = bml_zero_matrix(FMT, PREC, LN, M / P, sequential); bml_deallocate(&K); mark = sx_heap_mark(); live = sx_mpi_live(); }
    if (op == 19) for (int k = 0; k < N * N; k++) { sx_assume_sign(1e6 - A.re[k], POS); sx_assume_sign(1e6 + A.re[k], POS); } /* the reductions start from +-FLT_MAX-like values */
    bml_matrix_t *X = imp(&A, M), *Y = 0, *Z = 0; char t[16];
    int two = op == 1 || op == 2 || op == 5 || op == 7 || op == 13 || op == 33 || op == 15 || op == 16 || op == 22 || op == 8, three = op == 33 || op == 5 || op == 6 || op == 7;
    if (two) { symA(&B, "B"); Y = imp(&B, M); }
    if (three) { symA(&C, "C"); Z = imp(&C, M); }
    double a = 1, b = 1; if (op == 1 || op == 2 || op == 3 || op == 4 || op == 5 || op == 8 || op == 9 || op == 15 || op == 33) { a = sx_real("alpha", POS); b = op == 8 || op == 9 ? 0 : sx_real("beta", POS); }
    double v = 0, w = 0; char m[80]; snprintf(m, sizeof m, "distributed result differs from the serial one: %s", MSG[op]);
    switch (op)
    {
    case 0: dchk(X, &A, "a distributed import differs from the dense matrix"); sx_assert(bml_get_M(X) == M, "a distributed matrix reports another shape", bml_get_M(X), M);
        for (int i = 0; i < N; i++) { void *r = bml_get_row(X, i); for (int j = 0; j < N; j++) { sx_eq(getre(r, j, PREC), A.re[F(i, j)], "a row of a distributed matrix differs", i, j); sx_eq(getim(r, j, PREC), A.im[F(i, j)], "a row of a distributed matrix differs", i, j); } bml_free_memory(r); } break;
    case 1: bml_add(X, Y, a, b, 0); dlin(&W, a, &A, b, &B); dchk(Y, &B, "an operand of a distributed operation changed"); break;
    case 2: v = bml_add_norm(X, Y, a, b, 0); dlin(&W, a, &A, b, &B); for (int k = 0; k < N * N; k++) w += B.re[k] * B.re[k] - B.im[k] * B.im[k]; (void) w; break;
    case 3: bml_add_identity(X, b, 0); addid(&W, b); break;
    case 4: bml_scale_add_identity(X, a, b, 0); for (int k = 0; k < N * N; k++) { W.re[k] *= a; W.im[k] *= a; } addid(&W, b); break;
    case 5: bml_multiply(X, Y, Z, a, b, 0); dmul(&W, &A, &B); for (int k = 0; k < N * N; k++) { W.re[k] = a * W.re[k] + b * C.re[k]; W.im[k] = a * W.im[k] + b * C.im[k]; } dchk(Z, &W, m); dchk(X, &A, "an operand of a distributed operation changed"); dchk(Y, &B, "an operand of a distributed operation changed"); break;
    case 6: { void *tr = bml_multiply_x2(X, Z, 0); dmul(&W, &A, &A); dchk(Z, &W, m); dchk(X, &A, "an operand of a distributed operation changed"); if (tr) bml_free_memory(tr); break; }
    case 7: bml_multiply_AB(X, Y, Z, 0); dmul(&W, &A, &B); dchk(Z, &W, m); break;
    case 8: put(t, 0, PREC, a, 0); bml_scale(t, X, Y); for (int k = 0; k < N * N; k++) { W.re[k] *= a; W.im[k] *= a; } dchk(Y, &W, m); dchk(X, &A, "an operand of a distributed operation changed"); break;
    case 9: put(t, 0, PREC, a, 0); bml_scale_inplace(t, X); for (int k = 0; k < N * N; k++) { W.re[k] *= a; W.im[k] *= a; } break;
    case 10: case 11: for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { W.re[F(i, j)] = A.re[F(j, i)]; W.im[F(i, j)] = A.im[F(j, i)]; } if (op == 10) bml_transpose(X); else { Z = bml_transpose_new(X); dchk(Z, &W, m); dchk(X, &A, "an operand of a distributed operation changed"); } break;
    case 12: v = bml_trace(X); for (int i = 0; i < N; i++) w += A.re[F(i, i)]; sx_eq(v, w, m, op, 0); break;
    case 13: v = bml_trace_mult(X, Y); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w += A.re[F(i, j)] * B.re[F(j, i)] - A.im[F(i, j)] * B.im[F(j, i)]; sx_eq(v, w, m, op, 0); break;
    case 14: case 17: for (int k = 0; k < N * N; k++) w += A.re[k] * A.re[k] + A.im[k] * A.im[k]; v = op == 14 ? bml_sum_squares(X) : bml_fnorm(X); if (op == 17) { v = v * v; } sx_eq(v, w, m, op, 0); break;
    case 15: v = bml_sum_squares2(X, Y, a, b, 0); for (int k = 0; k < N * N; k++) { double p = a * A.re[k] + b * B.re[k], q = a * A.im[k] + b * B.im[k]; w += p * p + q * q; } sx_eq(v, w, m, op, 0); break;
    case 16: v = bml_sum_AB(X, Y, 2, 0); for (int k = 0; k < N * N; k++) w += 2 * (A.re[k] * B.re[k] - A.im[k] * B.im[k]); sx_eq(v, w, m, op, 0); break;
    case 18: { double lo = sx_real("lo", NEG), hi = sx_real("hi", POS); bml_normalize(X, lo, hi); for (int k = 0; k < N * N; k++) { W.re[k] *= -1 / (hi - lo); W.im[k] *= -1 / (hi - lo); } addid(&W, hi / (hi - lo)); break; }
    case 19: { double *e = bml_gershgorin(X), lo = 0, hi = 0; for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) if (j != i) r += fabs(A.re[F(i, j)]); double u = A.re[F(i, i)] + r, l = A.re[F(i, i)] - r; if (i == 0 || u > hi) hi = u; if (i == 0 || l < lo) lo = l; } sx_eq(e[0], lo, m, op, 0); sx_eq(e[1], hi, m, op, 1); bml_free_memory(e); break; }
    case 20: case 21: { double th = sx_real("thr", POS); for (int k = 0; k < N * N; k++) if (!(fabs(A.re[k]) > th)) W.re[k] = 0; if (op == 20) bml_threshold(X, th); else { Z = bml_threshold_new(X, th); dchk(Z, &W, m); } break; }
    case 22: bml_copy(X, Y); dchk(Y, &A, m); break;
    case 23: Z = bml_copy_new(X); dchk(Z, &A, m); put(t, 0, PREC, 3, 0); bml_scale_inplace(t, Z); dchk(X, &A, "a copy shares storage with its source"); break;
    case 24: { int i = sx_choice("i", N); void *row = malloc(N * esz(PREC)); for (int j = 0; j < N; j++) { W.re[F(i, j)] = (i + j) % 3 ? sx_real("R", POS) : 0; W.im[F(i, j)] = 0; put(row, j, PREC, W.re[F(i, j)], 0); } bml_set_row(X, i, row, 0); free(row); break; }
    case 25: { void *d = malloc(N * esz(PREC)); for (int j = 0; j < N; j++) { W.re[F(j, j)] = sx_real("R", POS); W.im[F(j, j)] = 0; put(d, j, PREC, W.re[F(j, j)], 0); } bml_set_diagonal(X, d, 0); free(d); break; }
    case 26: Z = bml_identity_matrix(FMT, PREC, N, M, distributed); zerod(&W, N); kid(&W, 1); dchk(Z, &W, m); dchk(X, &A, m); break;
    case 27: Z = bml_zero_matrix(FMT, PREC, N, M, distributed); zerod(&W, N); dchk(Z, &W, m); bml_copy(X, Z); dchk(Z, &A, m); break;
    case 28: Z = bml_zero_matrix(FMT, PREC, N, M, distributed); bml_write_bml_matrix(X, "d.mtx"); bml_barrierParallel(); bml_read_bml_matrix(Z, "d.mtx"); dchk(Z, &A, "a distributed matrix written and read back differs"); break;
    case 29: { int f2 = sx_param("to", FMT), f = FMT; Z = bml_convert(X, f2, PREC, M, distributed); FMT = f2; dchk(Z, &A, m); FMT = f; dchk(X, &A, "an operand of a distributed operation changed"); break; }
    case 30: { double th = 0; v = bml_get_sparsity(X, th); int nz = 0; for (int k = 0; k < N * N; k++) if (sx_known(A.re[k], ZERO) && sx_known(A.im[k], ZERO)) nz++; sx_eq(v * N * N, nz, m, op, 0); break; }
    case 31: bml_clear(X); zerod(&W, N); break;
    case 32: put(t, 0, PREC, 2, 0); Z = bml_scale_new(t, X); for (int k = 0; k < N * N; k++) { W.re[k] *= 2; W.im[k] *= 2; } dchk(Z, &W, m); dchk(X, &A, "an operand of a distributed operation changed"); break;
    case 33: { /* a chain: Z = a (A^T B) + b C; then Z thresholded at 0, squared, shifted */
        dm T, Q; zerod(&T, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { T.re[F(i, j)] = A.re[F(j, i)]; T.im[F(i, j)] = A.im[F(j, i)]; }
        bml_transpose(X); bml_multiply(X, Y, Z, a, b, 0); dmul(&W, &T, &B); for (int k = 0; k < N * N; k++) { W.re[k] = a * W.re[k] + b * C.re[k]; W.im[k] = a * W.im[k] + b * C.im[k]; } dchk(Z, &W, m);
        bml_matrix_t *U = bml_copy_new(Z); bml_add(U, X, 1, 2, 0); dlin(&W, 1, &T, 2, &T); zerod(&Q, N); dmul(&Q, &T, &B); for (int k = 0; k < N * N; k++) { W.re[k] = a * Q.re[k] + b * C.re[k] + 2 * T.re[k]; W.im[k] = a * Q.im[k] + b * C.im[k] + 2 * T.im[k]; }
        bml_add_identity(U, 1, 0); addid(&W, 1); dchk(U, &W, m); v = bml_trace(U); w = 0; for (int i = 0; i < N; i++) w += W.re[F(i, i)]; sx_eq(v, w, m, op, 0); bml_deallocate(&U); break; }
    case 34: { /* printing and repeated import/export keep the values */
        void *d = bml_export_to_dense(X, dense_row_major); if (RK == 0) { for (int k = 0; k < N * N; k++) sx_eq(getre(d, k, PREC), A.re[k], m, op, k); }
        Z = bml_import_from_dense(FMT, PREC, dense_row_major, N, M, d, 0.0, distributed); if (RK == 0) bml_free_memory(d); dchk(Z, &A, m); break; }
    }
    int inplace = op == 1 || op == 2 || op == 3 || op == 4 || op == 9 || op == 10 || op == 18 || op == 20 || op == 24 || op == 25 || op == 31;
    if (inplace) dchk(X, &W, m);
    else if (op >= 12 && op <= 19) dchk(X, &A, "an operand of a distributed operation changed");
    bml_deallocate(&X); if (Y) bml_deallocate(&Y); if (Z) bml_deallocate(&Z);
    sx_assert(X == NULL && Y == NULL && Z == NULL, "deallocation leaves a stale handle", op, 0); if (leaks) { sx_check_leaks(mark); sx_assert(sx_mpi_live() == live, "MPI communicators or datatypes made by the call are never released", sx_mpi_live(), live); }
}
