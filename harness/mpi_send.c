/* C31: matrices sent between ranks */
#include "lib.h"
#include "bml_parallel.h"
#include <mpi.h>
#include "csr/bml_types_csr.h"
void h_C31(void)
{
    setup(); int how = sx_param("how", 0), M = sx_param("M", N), rev = sx_param("rev", 0), root = sx_param("root", 0), n = bml_getNRanks(), g = bml_getMyRank(), me = g; MPI_Comm comm = MPI_COMM_WORLD; dm RA, RB, W;
    if (rev) { MPI_Comm_split(MPI_COMM_WORLD, 0, n - g, &comm); MPI_Comm_rank(comm, &me); } /* a communicator that numbers the ranks the other way round */
    int leaks = sx_param("leaks", 0), mark = 0, live = sx_mpi_live() - rev; if (leaks) { bml_matrix_t *K = bml_zero_matrix(FMT, PREC, N, M, sequential); bml_deallocate(&K); mark = sx_heap_mark(); } symA(&RA, "A"); symA(&RB, "B"); bml_matrix_t *A = 0, *B = 0;
    int snd = me == root, peer = root == 0 ? 1 : 0; /* root sends to peer (all others for a broadcast) */
    if (how == 4) { /* both exchange: receive posted first, then send, then completed */
        A = mk(&RA, FMT, PREC, M, sx_param("build", 0)); B = mk(&RB, FMT, PREC, M, sx_param("build2", 0)); if (me > 1) goto out;
        bml_matrix_t *S = me == 0 ? A : B, *R = me == 0 ? B : A; dm *sw = me == 0 ? &RA : &RB;
        bml_mpi_irecv(R, 1 - me, comm); bml_mpi_send(S, 1 - me, comm); bml_mpi_irecv_complete(R);
        wf(R, "malformed storage of a received matrix"); chkm(S, sw, 0, "sending a matrix changed it"); (void) sw;
        chkm(R, me == 0 ? &RB : &RA, 0, "a received matrix differs from the one sent"); /* rank 0 gets rank 1's B into its own B; rank 1 gets A */
        goto out; }
    if (snd) A = mk(&RA, FMT, PREC, M, sx_param("build", 0)); else if (how != 2) B = mk(&RB, FMT, PREC, M, sx_param("build2", 0));
    if (how == 3) bml_mpi_bcast_matrix(snd ? A : B, root, comm);
    else if (snd) bml_mpi_send(A, peer, comm);
    else if (me == peer) { if (how == 0) bml_mpi_recv(B, root, comm); if (how == 1) { bml_mpi_irecv(B, root, comm); bml_mpi_irecv_complete(B); } if (how == 2) B = bml_mpi_recv_matrix(FMT, PREC, N, M, root, comm); }
    if (snd) { wf(A, "malformed storage of a sent matrix"); chkm(A, &RA, 0, "sending a matrix changed it"); }
    else if (B) { copyd(&W, how == 3 || me == peer ? &RA : &RB); wf(B, "malformed storage of a received matrix"); chkm(B, &W, 0, "a received matrix differs from the one sent");
        sx_assert(bml_get_N(B) == N && bml_get_type(B) == FMT && bml_get_precision(B) == PREC, "a received matrix has another shape", bml_get_N(B), N);
        bml_matrix_t *K = bml_copy_new(B); char t[16]; put(t, 0, PREC, 2, 0); bml_scale_inplace(t, K); bml_add(K, B, 1, -1, 0); chkm(K, &W, 0, "a received matrix is not usable"); bml_deallocate(&K); }
out:
    if (A) bml_deallocate(&A); if (B) bml_deallocate(&B); if (leaks) sx_check_leaks(mark);
    if (rev) MPI_Comm_free(&comm);
    if (leaks) sx_assert(sx_mpi_live() == live, "MPI communicators or datatypes made by the call are never released", sx_mpi_live(), live);
}
/* C39: the rows of a matrix divided over the ranks (a user-supplied partition): every rank computes its own rows, a gather gives
   every rank the whole result; reductions over the ranks. cuts: decimal digits = rows of each rank. */
#include "bml_allocate.h"
#include "bml_element_multiply.h"
static int EX[16], R0, R1;
static void divide(bml_matrix_t *A)
{
    int n = bml_getNRanks(), me = bml_getMyRank(), c = sx_param("cuts", 0), mn[16], mx[16], nn[16], at = 0;
    for (int r = n - 1; r >= 0; r--) { EX[r] = c % 10; c /= 10; mn[r] = mx[r] = r + 1; nn[r] = EX[r]; }
    for (int r = 0; r < n; r++) { if (r == me) { R0 = at; R1 = at + EX[r]; } at += EX[r]; }
    bml_update_domain(A, mn, mx, nn);
}
static void own(dm *D, const dm *S, const dm *O) { copyd(D, S); for (int i = 0; i < N; i++) if (i < R0 || i >= R1) for (int j = 0; j < N; j++) { D->re[i * N + j] = O->re[i * N + j]; D->im[i * N + j] = O->im[i * N + j]; } }
void h_C39(void)
{
    setup(); int how = sx_param("how", 0), M = sx_param("M", N), n = bml_getNRanks(), me = bml_getMyRank(); dm A, B, W, T; char t[16]; static const char *MSG = "a gathered result differs from the serial one";
    sx_assert(n == sx_param("procs", 1), "number of ranks", n, 0);
    if (how == 1) { /* reductions */
        double v[16], s = 0, x, y, z; for (int r = 0; r < n; r++) { v[r] = sx_real("v", ANY); s += v[r]; } x = y = z = v[me];
        bml_sumRealReduce(&x); bml_minRealReduce(&y); bml_maxRealReduce(&z); sx_eq(x, s, "the sum over the ranks", 0, 0); double lo = v[0], hi = v[0];
        for (int r = 1; r < n; r++) { if (v[r] < lo) lo = v[r]; if (v[r] > hi) hi = v[r]; }
        sx_eq(y, lo, "the smallest value over the ranks", 0, 0); sx_eq(z, hi, "the largest value over the ranks", 0, 0); sx_assert(bml_printRank() == (me == 0), "another rank prints", me, 0); bml_barrierParallel(); return; }
    symA(&A, "A"); symA(&B, "B"); bml_matrix_t *X, *Y = 0, *Z = 0; int leaks = sx_param("leaks", 0), mark = 0, live = 0; if (leaks) { X = bml_zero_matrix(FMT, PREC, N, M, sequential); divide(X); bml_deallocate(&X); mark = sx_heap_mark(); live = sx_mpi_live(); }
    if (how == 0) { /* gather: own rows hold A, the others hold B */
        bml_matrix_t *K = bml_zero_matrix(FMT, PREC, N, M, sequential); divide(K); bml_deallocate(&K); own(&T, &A, &B); X = mk(&T, FMT, PREC, M, sx_param("build", 0)); divide(X);
        for (int k = 0; k < 2; k++) { bml_allGatherVParallel(X); wf(X, "malformed storage of a gathered matrix"); chkm(X, &A, 0, "a gathered matrix differs from the ranks' rows"); }
        bml_deallocate(&X); if (leaks) { sx_check_leaks(mark); sx_assert(sx_mpi_live() == live, "MPI communicators or datatypes made by the call are never released", sx_mpi_live(), live); } return; }
    int op = sx_param("op", 0); X = mk(&A, FMT, PREC, M, 0); divide(X); if (op != 4 && op != 6 && op != 9 && op != 11 && op != 12) { Y = mk(&B, FMT, PREC, M, 0); divide(Y); }
    double v = 0, w = 0, a = 1, b = 1; zerod(&W, N); copyd(&W, &A);
    switch (op)
    {
    case 0: Z = bml_zero_matrix(FMT, PREC, N, M, sequential); divide(Z); { void *tr = bml_multiply_x2(X, Z, 0); if (tr) bml_free_memory(tr); } dmul(&W, &A, &A); break;
    case 1: Z = bml_zero_matrix(FMT, PREC, N, M, sequential); divide(Z); bml_multiply_AB(X, Y, Z, 0); dmul(&W, &A, &B); break;
    case 2: a = sx_real("alpha", POS); b = sx_real("beta", POS); bml_add(X, Y, a, b, 0); dlin(&W, a, &A, b, &B); break;
    case 3: Z = bml_zero_matrix(FMT, PREC, N, M, sequential); divide(Z); bml_element_multiply_AB(X, Y, Z, 0); for (int k = 0; k < N * N; k++) { W.re[k] = A.re[k] * B.re[k] - A.im[k] * B.im[k]; W.im[k] = A.re[k] * B.im[k] + A.im[k] * B.re[k]; } break;
    case 4: { double th = sx_real("thr", POS); bml_threshold(X, th); for (int k = 0; k < N * N; k++) if (!(fabs(A.re[k]) > th)) W.re[k] = 0; break; }
    case 5: v = bml_trace(X); for (int i = 0; i < N; i++) w += A.re[i * N + i]; bml_sumRealReduce(&v); sx_eq(v, w, "a reduced value differs from the serial one", op, 0);
        v = bml_trace_mult(X, Y); w = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w += A.re[i * N + j] * B.re[j * N + i] - A.im[i * N + j] * B.im[j * N + i]; bml_sumRealReduce(&v); sx_eq(v, w, "a reduced value differs from the serial one", op, 1);
        v = bml_sum_squares(X); w = 0; for (int k = 0; k < N * N; k++) w += A.re[k] * A.re[k] + A.im[k] * A.im[k]; bml_sumRealReduce(&v); sx_eq(v, w, "a reduced value differs from the serial one", op, 2); break;
    case 8: { double p = 0, q = 0, r = 0, u = 0; for (int k = 0; k < N * N; k++) { double e = 2 * A.re[k] + 3 * B.re[k], f = 2 * A.im[k] + 3 * B.im[k], g = A.re[k] - B.re[k], h = A.im[k] - B.im[k]; p += A.re[k] * A.re[k] + A.im[k] * A.im[k]; q += g * g + h * h; r += e * e + f * f; u += 2 * (A.re[k] * B.re[k] - A.im[k] * B.im[k]); }
        v = bml_sum_squares2(X, Y, 2, 3, 0); bml_sumRealReduce(&v); sx_eq(v, r, "a reduced value differs from the serial one", op, 2);
        v = bml_sum_AB(X, Y, 2, 0); bml_sumRealReduce(&v); sx_eq(v, u, "a reduced value differs from the serial one", op, 3);
        v = bml_fnorm(X); v = v * v; bml_sumRealReduce(&v); sx_eq(v, p, "a reduced value differs from the serial one", op, 0);
        v = bml_fnorm2(X, Y); v = v * v; bml_sumRealReduce(&v); sx_eq(v, q, "a reduced value differs from the serial one", op, 1); break; }
    case 9: { double th = sx_real("thr", POS); Z = bml_threshold_new(X, th); divide(Z); for (int k = 0; k < N * N; k++) if (!(fabs(A.re[k]) > th)) W.re[k] = 0; break; }
    case 10: a = sx_real("alpha", POS); b = sx_real("beta", POS); v = bml_add_norm(X, Y, a, b, 0); dlin(&W, a, &A, b, &B); break;
    case 11: a = sx_real("alpha", POS); bml_scale_add_identity(X, a, 2, 0); for (int k = 0; k < N * N; k++) { W.re[k] *= a; W.im[k] *= a; } for (int i = 0; i < N; i++) W.re[i * N + i] += 2; break;
    case 12: put(t, 0, PREC, 3, 0); Z = bml_scale_new(t, X); divide(Z); for (int k = 0; k < N * N; k++) { W.re[k] *= 3; W.im[k] *= 3; } break;
    case 6: bml_add_identity(X, 2, 0); for (int i = 0; i < N; i++) W.re[i * N + i] += 2; break;
    case 7: put(t, 0, PREC, 3, 0); bml_scale(t, X, Y); bml_deallocate(&Y); Y = 0; bml_scale_inplace(t, X); for (int k = 0; k < N * N; k++) { W.re[k] *= 3; W.im[k] *= 3; } break;
    }
    if (op == 5 || op == 8) chkm(X, &A, 0, "a reduction changed its operand");
    else { bml_matrix_t *G = Z ? Z : X; bml_allGatherVParallel(G); wf(G, "malformed storage of a gathered matrix"); chkm(G, &W, 0, MSG); if (Z) chkm(X, &A, 0, "an operation changed its operand"); if (op == 1 || op == 3) chkm(Y, &B, 0, "an operation changed its operand"); }
    bml_deallocate(&X); if (Y) bml_deallocate(&Y); if (Z) bml_deallocate(&Z);
    if (leaks) { sx_check_leaks(mark); sx_assert(sx_mpi_live() == live, "MPI communicators or datatypes made by the call are never released", sx_mpi_live(), live); }
}
