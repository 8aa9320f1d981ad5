/* every public operation as a step on a small world of matrices with dense references */
#include "ops.h"
#define F(i,j) ((i)*N+(j))
int op_gen;
double op_thr; /* threshold of the threshold operations; > 0 in real precisions only */
int op_ok(int op, int fmt)
{
    if (fmt == csr) return op != O_ADDNORM && op != O_ADJUNG && op != O_TRTRI && op != O_GROUP;
    if (fmt == ellblock) return op != O_HAD && op != O_ADJUNG && op != O_TRTRI && op != O_GROUP;
    if (fmt == ellpack) return op != O_TRTRI;
    return op != O_GROUP;
}
static double sc(const char *n) { return sx_real(n, op_gen ? ANY : POS); }
static void put1(dm *R, int k, char *t) { R->re[k] = sc("v"); R->im[k] = CX ? sc("v") : 0; put(t, 0, PREC, R->re[k], R->im[k]); }
static void repl(world *w, int c, bml_matrix_t *n) { bml_matrix_t *o = w->m[c]; w->m[c] = n; bml_deallocate(&o); sx_assert(o == 0, "deallocation leaves the caller's handle set", 0, 0); }
static void dadd(dm *A, double al, double be, const dm *B) { dm T; copyd(&T, A); dlin(A, al, &T, be, B); }
static void dtr(dm *A) { dm T; copyd(&T, A); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { A->re[F(i, j)] = T.re[F(j, i)]; A->im[F(i, j)] = T.im[F(j, i)]; } }
static void dscale(dm *A, double sr, double si) { for (int i = 0; i < N * N; i++) { double r, m; mulz(A->re[i], A->im[i], sr, si, &r, &m); A->re[i] = r; A->im[i] = m; } }
static void drop(dm *A) { if (op_thr > 0) for (int i = 0; i < N * N; i++) if (A->re[i] <= op_thr && A->re[i] >= -op_thr) A->re[i] = 0; }
void op_run(world *w, int op, int a, int b, int c, int check)
{
    char t[16]; dm T, Id, old[3]; bml_matrix_t *A = w->m[a], *B = w->m[b], *C = w->m[c]; dm *RA = &w->r[a], *RB = &w->r[b], *RC = &w->r[c]; int M = bml_get_M(A);
    double al, be;
    Id.N = N; kid(&Id, 1);
    switch (op) {
    case O_ADD: al = sc("al"); be = sc("be"); bml_add(A, B, al, be, 0); dadd(RA, al, be, RB); break;
    case O_SUB: bml_add(A, B, 1, -1, 0); dadd(RA, 1, -1, RB); break;
    case O_ADDID: be = sc("be"); bml_add_identity(A, be, 0); dadd(RA, 1, be, &Id); break;
    case O_SCADDID: al = sc("al"); be = sc("be"); bml_scale_add_identity(A, al, be, 0); dadd(RA, al, be, &Id); break;
    case O_MUL: bml_multiply(A, B, C, 1, 0, 0); dmul(&T, RA, RB); copyd(RC, &T); break;
    case O_MULADD: al = sc("al"); be = sc("be"); bml_multiply(A, B, C, al, be, 0); dmul(&T, RA, RB); dadd(RC, be, al, &T); break;
    case O_X2: { void *p = bml_multiply_x2(A, C, 0); bml_free_memory(p); dmul(&T, RA, RA); copyd(RC, &T); break; }
    case O_AB: bml_multiply_AB(A, B, C, 0); dmul(&T, RA, RB); copyd(RC, &T); break;
    case O_ADJ: bml_multiply_adjust_AB(A, B, C, 0); dmul(&T, RA, RB); copyd(RC, &T); break;
    case O_SCALEIN: case O_SCALE: case O_SCALENEW: { double sr = sc("s"), si = CX ? sc("s") : 0; put(t, 0, PREC, sr, si);
        if (op == O_SCALEIN) { bml_scale_inplace(t, A); dscale(RA, sr, si); }
        else if (op == O_SCALE) { bml_scale(t, A, C); copyd(RC, RA); dscale(RC, sr, si); }
        else { repl(w, c, bml_scale_new(t, A)); copyd(RC, RA); dscale(RC, sr, si); } break; }
    case O_TR: bml_transpose(A); dtr(RA); break;
    case O_TRNEW: repl(w, c, bml_transpose_new(A)); copyd(&T, RA); dtr(&T); copyd(RC, &T); break;
    case O_THR: bml_threshold(A, op_thr); drop(RA); break;
    case O_THRNEW: repl(w, c, bml_threshold_new(A, op_thr)); copyd(RC, RA); drop(RC); break;
    case O_COPY: bml_copy(A, C); copyd(RC, RA); break;
    case O_COPYNEW: repl(w, c, bml_copy_new(A)); copyd(RC, RA); break;
    case O_SETEL: { int i = sx_choice("i", N), j = sx_choice("j", N); put1(RA, F(i, j), t); bml_set_element(A, i, j, t); break; }
    case O_SETROW: { int i = sx_choice("i", N); char row[16 * MX]; for (int j = 0; j < N; j++) if ((i + j) % 2) { RA->re[F(i, j)] = RA->im[F(i, j)] = 0; put(row, j, PREC, 0, 0); } else { put1(RA, F(i, j), t); put(row, j, PREC, RA->re[F(i, j)], RA->im[F(i, j)]); } bml_set_row(A, i, row, 0); break; }
    case O_SETDIAG: { char d[16 * MX]; for (int i = 0; i < N; i++) { if (i == 1) { RA->re[F(i, i)] = RA->im[F(i, i)] = 0; put(d, i, PREC, 0, 0); } else { put1(RA, F(i, i), t); put(d, i, PREC, RA->re[F(i, i)], RA->im[F(i, i)]); } } bml_set_diagonal(A, d, 0); break; }
    case O_HAD: bml_element_multiply_AB(A, B, C, 0); T.N = N; for (int i = 0; i < N * N; i++) mulz(RA->re[i], RA->im[i], RB->re[i], RB->im[i], &T.re[i], &T.im[i]); copyd(RC, &T); break;
    case O_ADDNORM: al = sc("al"); be = sc("be"); sx_observe("n", bml_add_norm(A, B, al, be, 0)); dadd(RA, al, be, RB); break;
    case O_CLEAR: bml_clear(C); zerod(RC, N); break;
    case O_CONV: repl(w, c, bml_convert(A, FMT, PREC, N, sequential)); copyd(RC, RA); break;
    case O_ADJUNG: { char tr = 'u'; bml_adjungate_triangle(A, &tr); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) { RA->re[F(i, j)] = RA->re[F(j, i)]; RA->im[F(i, j)] = -RA->im[F(j, i)]; } break; }
    case O_TRTRI: bml_transpose_triangle(A, 'l'); for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) { RA->re[F(j, i)] = RA->re[F(i, j)]; RA->im[F(j, i)] = RA->im[F(i, j)]; } break;
    case O_NORMZ: bml_normalize(A, -1, 3); copyd(&T, RA); dlin(RA, -0.25, &T, 0.75, &Id); break;
    case O_ZERO: repl(w, c, bml_zero_matrix(FMT, PREC, N, M, sequential)); zerod(RC, N); break;
    case O_IDENT: repl(w, c, bml_identity_matrix(FMT, PREC, N, M, sequential)); copyd(RC, &Id); break;
    case O_EXPIMP: { void *p = bml_export_to_dense(A, dense_row_major); repl(w, c, bml_import_from_dense(FMT, PREC, dense_row_major, N, M, p, 0, sequential)); bml_free_memory(p); copyd(RC, RA); break; }
    case O_XTRACT: { if (FMT == ellblock) { repl(w, c, bml_extract_submatrix(A, 0, 0, N, N)); copyd(RC, RA); break; }
        bml_matrix_t *S = bml_extract_submatrix(A, 1, 0, N - 1, N - 1); bml_clear(C); zerod(RC, N); bml_assign_submatrix(C, S, 0, 1); bml_deallocate(&S); for (int i = 0; i < N - 1; i++) for (int j = 0; j < N - 1; j++) { RC->re[F(i, j + 1)] = RA->re[F(i + 1, j)]; RC->im[F(i, j + 1)] = RA->im[F(i + 1, j)]; } break; }
    case O_IO: bml_write_bml_matrix(A, "ops_scratch.mtx"); bml_clear(C); bml_read_bml_matrix(C, "ops_scratch.mtx"); copyd(RC, RA); break;
    case O_DIAGZ: { char ev[16 * MX]; dm S; bml_matrix_t *Q = bml_zero_matrix(FMT, PREC, N, M, sequential); bml_matrix_t *H = bml_copy_new(A); bml_diagonalize(H, ev, Q); bml_deallocate(&H); bml_deallocate(&Q); (void) S; break; }
    case O_INV: { bml_matrix_t *V = bml_inverse(A); bml_deallocate(&V); break; }
    case O_GROUP: { int hi[2] = { 1, 2 }, xa[MX + 1], ad[MX * MX]; bml_matrix_t *G = bml_group_matrix(A, hi, 2, 0); bml_deallocate(&G); bml_adjacency(A, xa, ad, 1); bml_adjacency_group(A, hi, 2, xa, ad, 0);
        int nl[2] = { 0, 1 }, ch[MX], vs[2]; bml_matrix2submatrix_index(A, A, nl, 2, ch, vs, 1); bml_matrix2submatrix_index_graph(A, nl, 1, ch, vs, 1); bml_matrix_t *D = bml_zero_matrix(dense, PREC, vs[0], vs[0], sequential); bml_matrix2submatrix(A, D, ch, vs[0]); bml_deallocate(&D); break; }
    case O_READ: { /* all the queries: they change nothing */
        double r = bml_trace(A); double wn = 0; for (int i = 0; i < N; i++) wn += RA->re[F(i, i)]; if (!CX) sx_eq(r, wn, "trace after a sequence of operations", 0, 0);
        sx_observe("q", bml_trace_mult(A, B)); sx_observe("q", bml_sum_squares(A)); if (FMT != ellblock) sx_observe("q", bml_sum_squares_submatrix(A, 1)); { static const double S1[4] = { 1, 2, 0, -1 }, S2[4] = { 2, 1, 1, 0 }; int v = sx_param("sv", 0) ? sx_choice("sv", 4) : 0;
            sx_observe("q", bml_sum_squares2(A, B, S1[v], S2[v], 0)); sx_observe("q", bml_sum_AB(A, B, S1[v], 0)); sx_observe("q", bml_sum_AB(B, A, S2[v], 0)); } bml_fnorm(A); if (FMT != csr && FMT != ellblock) bml_fnorm2(A, B);
        void *p = bml_gershgorin(A); bml_free_memory(p); p = bml_get_row(A, 0); bml_free_memory(p); p = bml_get_diagonal(A); bml_free_memory(p); p = bml_get_element(A, 0, N - 1); if (FMT != dense && 0) bml_free_memory(p);
        p = bml_export_to_dense(A, dense_column_major); bml_free_memory(p); sx_observe("q", bml_get_N(A)); bml_get_sparsity(A, 0); if (FMT != ellblock) { bml_get_bandwidth(A); bml_get_row_bandwidth(A, 0); } break; }
    }
    (void) old;
    if (check) for (int k = 0; k < 3; k++) { wf(w->m[k], "malformed storage after a sequence of operations"); chkm(w->m[k], &w->r[k], 0, "matrix differs from the dense reference after a sequence of operations"); }
}
void op_free(world *w) { for (int k = 0; k < 3; k++) { bml_deallocate(&w->m[k]); sx_assert(w->m[k] == 0, "deallocation leaves the caller's handle set", k, 0); } }
/* ---- the world: A, B, C as given by the pattern parameters */
static void make(world *w)
{
    static const char *nm[3] = { "A", "B", "C" };
    for (int k = 0; k < 3; k++) { symA(&w->r[k], nm[k]); w->m[k] = mk(&w->r[k], FMT, PREC, k == 1 ? sx_param("Mb", sx_param("M", N)) : k == 2 ? sx_param("Mc", sx_param("M", N)) : sx_param("M", N), sx_param("build", 0)); }
}
/* C21: sequences of operations, any roles */
void h_C21(void)
{
    setup(); op_gen = sx_param("gen", 0); world w; make(&w); int steps = sx_param("steps", 2);
    if (sx_param("thr", 0)) /* the entries of A are either below or above the threshold, as the mask says */
    {
        op_thr = 0.5; int small = sx_param("small", 0);
        for (int k = 0; k < 3; k++) for (int p = 0; p < N * N; p++) if (w.r[k].re[p] != 0) sx_assume((k == 0 && small >> p & 1) ? w.r[k].re[p] <= 0.25 : w.r[k].re[p] >= 1);
    }
    if (sx_param("cap", 0)) sx_allow_exit(1); /* rows that hold fewer blocks than there are: refusing is right */
    static const int roles[6][3] = { { 0, 1, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 }, { 0, 2, 1 }, { 1, 0, 2 } };
    for (int s = 0; s < steps; s++)
    {
        int op = s == 0 ? sx_param("op", 0) : s == 1 && sx_param("op2", -1) >= 0 ? sx_param("op2", 0) : sx_choice("op", O_N); if (!op_ok(op, FMT)) return;
        if (s && sx_param("lite", 0) && (op == O_SUB || op == O_MULADD)) return; /* too many paths: covered at N=2 */
        if (op == O_DIAGZ || op == O_INV || op == O_GROUP) return; /* results of stand-ins: no reference */
        int r = s == 0 ? 0 : sx_choice("roles", sx_param("nroles", 3));
        op_run(&w, op, roles[r][0], roles[r][1], roles[r][2], s == steps - 1);
    }
    op_free(&w);
}
/* C24: the same with several threads; the engine reports unsynchronised accesses */
void h_C22(void);
void h_C24(void) { h_C22(); }
/* C33: nothing but the documented target changes */
void h_C33(void)
{
    setup(); op_gen = sx_param("gen", 1); world w; make(&w); int op = sx_param("op", 0); if (!op_ok(op, FMT)) return;
    int same = sx_param("same", 0); if (same && (op == O_ADD || op == O_SUB || op == O_ADDNORM || op == O_TRNEW)) return;
    dm old[3]; for (int k = 0; k < 3; k++) copyd(&old[k], &w.r[k]);
    op_run(&w, op, 0, same ? 0 : 1, 2, 0);
    /* the reference world says which matrices may change; the others must still be as built */
    int wrA = op == O_ADD || op == O_SUB || op == O_ADDID || op == O_SCADDID || op == O_SCALEIN || op == O_TR || op == O_THR || op == O_SETEL || op == O_SETROW || op == O_SETDIAG || op == O_ADDNORM || op == O_ADJUNG || op == O_TRTRI || op == O_NORMZ;
    int wrC = !wrA && op != O_READ && op != O_DIAGZ && op != O_INV && op != O_GROUP;
    if (!wrA) chkm(w.m[0], &old[0], 0, "an operation changed its read-only first operand");
    chkm(w.m[1], &old[1], 0, "an operation changed its read-only second operand");
    if (!wrC) chkm(w.m[2], &old[2], 0, "an operation changed a matrix it was not given");
    op_free(&w);
}
/* C23: no leaks */
void h_C23(void)
{
    setup(); op_gen = sx_param("gen", 0); int steps = sx_param("steps", 1), warm = sx_param("warm", 1);
    if (warm) { bml_matrix_t *Z = bml_zero_matrix(FMT, PREC, N, sx_param("M", N), sequential); bml_deallocate(&Z); } /* block size table of the format */
    int mark = sx_heap_mark(); world w; make(&w);
    for (int s = 0; s < steps; s++)
    {
        int op = s == 0 ? sx_param("op", 0) : sx_choice("op", O_N); if (!op_ok(op, FMT)) return;
        int same = sx_param("same", 0) && s == 0; if (same && (op == O_ADD || op == O_SUB || op == O_ADDNORM)) return;
        op_run(&w, op, 0, same ? 0 : 1, 2, 0);
    }
    op_free(&w); sx_check_leaks(mark); sx_assert(sx_file_open_count() == 0, "a file is left open", sx_file_open_count(), 0);
}
/* C22: operations on matrices whose rows are exactly full, on one-row matrices, on rows that must grow, on freshly built results */
void h_C22(void)
{
    setup(); op_gen = sx_param("gen", 0); world w; make(&w); int steps = sx_param("steps", 1);
    for (int s = 0; s < steps; s++)
    {
        int op = s == 0 ? sx_param("op", 0) : sx_choice("op", O_N); if (!op_ok(op, FMT)) return;
        if (s && (op == O_DIAGZ || op == O_INV || op == O_GROUP)) return;
        int same = sx_param("same", 0) && s == 0; if (same && (op == O_ADD || op == O_SUB || op == O_ADDNORM)) return;
        if (N == 1 && (op == O_XTRACT || op == O_GROUP)) return;
        /* an assignment may need more room than a full row has: refusing it is right, writing past the row is not */
        sx_allow_exit((op == O_SETEL || op == O_SETROW || op == O_SETDIAG || op == O_XTRACT || op == O_DIAGZ || op == O_INV) && sx_param("M", N) < N);
        int fin = op != O_DIAGZ && op != O_INV && op != O_GROUP; op_run(&w, op, 0, same ? 0 : 1, 2, fin && s == steps - 1); sx_allow_exit(0);
    }
    op_free(&w);
}

static int nz(const dm *A, int k) { return A->re[k] != 0 || A->im[k] != 0; }
/* ---- C34: requests the library declares invalid stop with an error; everything else works */
static bml_matrix_t *plain(const char *nm, dm *R) { symA(R, nm); return mk(R, FMT, PREC, sx_param("M", N), sx_param("build", 0)); }
/* any index */
void h_C34idx(void)
{
    setup(); dm R; int how = sx_param("how", 0); bml_matrix_t *A = plain("A", &R); int i = sx_int("i", -2147483647 - 1, 2147483647), j = how == 0 ? sx_int("j", -2147483647 - 1, 2147483647) : 0, ri = i >= 0 && i < N, rj = j >= 0 && j < N;
    sx_allow_exit(!(ri && rj));
    if (how == 0)
    {
        char *e = bml_get_element(A, i, j); sx_assert(ri && (rj || (FMT == csr && j >= N)), "element access outside of the matrix was not refused", 0, 0);
        double wr = 0, wi = 0; for (int p = 0; p < N; p++) for (int q = 0; q < N; q++) if (i == p && j == q) { wr = R.re[F(p, q)]; wi = R.im[F(p, q)]; }
        sx_eq(getre(e, 0, PREC), wr, "element read differs", 0, 0); if (CX) sx_eq(getim(e, 0, PREC), wi, "element read differs", 0, 0);
    }
    else { int w = bml_get_row_bandwidth(A, i), c = 0; sx_assert(ri, "row outside of the matrix was not refused", 0, 0); for (int p = 0; p < N; p++) if (i == p) for (int q = 0; q < N; q++) c += nz(&R, F(p, q)); sx_assert(w == c, "row bandwidth of a valid row", w, c); }
    bml_deallocate(&A);
}
/* operands that do not fit together */
void h_C34mix(void)
{
    setup(); dm R; bml_matrix_t *A = plain("A", &R); int how = sx_param("how", 0), f2 = sx_param("fmt2", FMT), n2 = N + sx_param("dn", 0), m2 = sx_param("M2", n2); bml_matrix_t *B = bml_zero_matrix(f2, PREC, n2, m2, sequential);
    int bad = f2 != FMT || n2 != N; if (how == 0) bad |= FMT != csr && FMT != dense && bml_get_M(B) < bml_get_M(A);
    sx_allow_exit(bad);
    switch (how) {
    case 0: bml_copy(A, B); break;
    case 1: bml_trace_mult(A, B); break; }
    sx_assert(!bad, "operands that do not fit together were accepted", how, n2);
    if (how == 0) chkm(B, &R, 0, "copy of a matrix"); sx_allow_exit(0); bml_deallocate(&A); bml_deallocate(&B);
}
/* formats and precisions that do not exist */
void h_C34fmt(void)
{
    setup(); int how = sx_param("how", 0), t = sx_param("symt", 1) ? sx_int("t", -4, 12) : FMT, p = sx_param("symp", 1) ? sx_int("p", -4, 12) : PREC; dm R; bml_matrix_t *A = how >= 5 ? plain("A", &R) : 0, *B = 0; if (how == 5) p = PREC;
    int ok = t >= dense && t <= csr && p >= single_real && p <= double_complex; char buf[16 * MX * MX]; for (int i = 0; i < N * N; i++) put(buf, i, double_complex, 0, 0);
    for (int v = -4; v <= 12; v++) if (t == v) { t = v; break; } for (int v = -4; v <= 12; v++) if (p == v) { p = v; break; }
    if (ok && (how == 4 || how == 6) && p != PREC) return;
    sx_allow_exit(!ok);
    switch (how) {
    case 0: B = bml_zero_matrix(t, p, N, N, sequential); break;
    case 1: B = bml_identity_matrix(t, p, N, N, sequential); break;
    case 2: B = bml_noinit_matrix(t, p, N, N, sequential); break;
    case 3: { bml_matrix_dimension_t d = { N, N, N }; B = bml_noinit_rectangular_matrix(t, p, d, sequential); break; }
    case 4: B = bml_import_from_dense(t, p, dense_row_major, N, N, buf, 0, sequential); break;
    case 5: B = bml_convert(A, t, PREC, N, sequential); break;
    case 6: B = bml_banded_matrix(t, p, N, N, sequential); break;
    case 7: B = bml_random_matrix(t, p, N, N, sequential); break; }
    sx_assert(ok, "a format or precision that does not exist was accepted", t, p); sx_assert(bml_get_type(B) == t && bml_get_N(B) == N, "matrix created with another type", t, 0); if (how != 5) sx_assert(bml_get_precision(B) == p, "matrix created with another precision", p, 0);
    sx_allow_exit(0); bml_deallocate(&B); if (A) bml_deallocate(&A);
}
/* operations a format does not offer */
void h_C34unsup(void)
{
    setup(); dm R, R2, R3; bml_matrix_t *A = plain("A", &R), *B = plain("B", &R2), *C = plain("C", &R3); int w = sx_param("what", 0), nl[2] = { 0, 1 }, ch[MX], vs[2], xa[MX + 1], ad[MX * MX], perm[MX]; double buf[2 * MX * MX]; for (int i = 0; i < N; i++) perm[i] = i; char u = 'u';
    sx_allow_exit(1);
    switch (w) {
    case 0: bml_matrix2submatrix_index(A, B, nl, 2, ch, vs, 0); break;
    case 1: bml_matrix2submatrix_index_graph(A, nl, 2, ch, vs, 0); break;
    case 2: bml_group_matrix(A, nl, 2, 0); break;
    case 3: bml_adjacency(A, xa, ad, 0); break;
    case 4: bml_adjacency_group(A, nl, 2, xa, ad, 0); break;
    case 5: bml_matrix2submatrix(A, B, nl, 2); break;
    case 6: vs[0] = 1; bml_submatrix2matrix(A, B, nl, 2, 1, 0); break;
    case 7: bml_element_multiply_AB(A, B, C, 0); break;
    case 8: bml_adjungate_triangle(A, &u); break;
    case 9: bml_transpose_triangle(A, 'l'); break;
    case 10: bml_multiply_x2(A, C, 0); break;
    case 11: bml_multiply_adjust_AB(A, B, C, 0); break;
    case 12: bml_add_norm(A, B, 1, 1, 0); break;
    case 13: bml_reorder(A, perm); break;
    case 14: bml_sum_squares_submatrix(A, 1); break;
    case 15: bml_fnorm2(A, B); break;
    case 16: bml_get_bandwidth(A); break;
    case 17: bml_get_row_bandwidth(A, 0); break; }
    (void) buf; sx_assert(0, "an operation the format does not offer was accepted", w, FMT);
}
/* a matrix that was never created */
void h_C34null(void)
{
    setup(); dm R; bml_matrix_t *A = plain("A", &R), *Z = 0; int w = sx_param("what", 0), nl[2] = { 0, 1 }, ch[MX], vs[2], xa[MX + 1], ad[MX * MX]; char v[16]; put(v, 0, PREC, 1, 0); double ev[4 * MX]; char u = 'u'; int ret = 0;
    sx_allow_exit(1);
    switch (w) {
    case 0: bml_add(Z, A, 1, 1, 0); break; case 1: bml_add_norm(Z, A, 1, 1, 0); break; case 2: bml_add_identity(Z, 1, 0); break; case 3: bml_scale_add_identity(Z, 1, 1, 0); break;
    case 4: bml_multiply(Z, A, A, 1, 0, 0); break; case 5: bml_multiply_x2(Z, A, 0); break; case 6: bml_multiply_AB(Z, A, A, 0); break; case 7: bml_multiply_adjust_AB(Z, A, A, 0); break;
    case 8: bml_element_multiply_AB(Z, A, A, 0); break; case 9: bml_scale_new(v, Z); break; case 10: bml_scale(v, Z, A); break; case 11: bml_scale_inplace(v, Z); break;
    case 12: bml_transpose(Z); break; case 13: bml_transpose_new(Z); break; case 14: bml_threshold(Z, 0); break; case 15: bml_threshold_new(Z, 0); break;
    case 16: bml_trace(Z); break; case 17: bml_trace_mult(Z, A); break; case 18: bml_sum_squares(Z); break; case 19: bml_fnorm(Z); break; case 20: bml_sum_squares2(Z, A, 1, 1, 0); break; case 21: bml_sum_squares_submatrix(Z, 1); break;
    case 22: bml_gershgorin(Z); break; case 23: bml_gershgorin_partial(Z, 1); break; case 24: bml_normalize(Z, 0, 1); break; case 25: bml_inverse(Z); break; case 26: bml_diagonalize(Z, ev, A); break;
    case 27: bml_get_element(Z, 0, 0); break; case 28: bml_get_row(Z, 0); break; case 29: bml_get_diagonal(Z); break; case 30: bml_set_element(Z, 0, 0, v); break; case 31: bml_set_element_new(Z, 0, 0, v); break; case 32: bml_set_row(Z, 0, v, 0); break; case 33: bml_set_diagonal(Z, v, 0); break;
    case 34: ret = 1; sx_assert(bml_export_to_dense(Z, dense_row_major) == 0, "export of a matrix that was never created", 0, 0); break; case 35: bml_copy_new(Z); break; case 36: bml_clear(Z); break; case 37: bml_get_row_bandwidth(Z, 0); break; case 38: bml_get_bandwidth(Z); break; case 39: bml_get_sparsity(Z, 0); break;
    case 40: bml_write_bml_matrix(Z, "c34.mtx"); break; case 41: bml_read_bml_matrix(Z, "c34.mtx"); break; case 42: bml_extract_submatrix(Z, 0, 0, 1, 1); break; case 43: bml_assign_submatrix(Z, A, 0, 0); break;
    case 44: bml_matrix2submatrix_index(Z, A, nl, 1, ch, vs, 0); break; case 45: bml_adjacency(Z, xa, ad, 0); break; case 46: bml_group_matrix(Z, nl, 1, 0); break; case 47: bml_adjungate_triangle(Z, &u); break; case 48: bml_transpose_triangle(Z, 'u'); break;
    case 49: bml_convert(Z, dense, PREC, N, sequential); break; case 50: ret = 1; sx_assert(bml_get_precision(Z) == precision_uninitialized, "precision of a matrix that was never created", 0, 0); break; case 51: bml_get_distribution_mode(Z); break;
    case 52: ret = 1; sx_assert(bml_get_type(Z) == type_uninitialized, "type of a matrix that was never created", 0, 0); break;
    case 53: ret = 1; sx_assert(bml_get_N(Z) == -1, "size of a matrix that was never created", 0, 0); break; case 54: ret = 1; sx_assert(bml_get_M(Z) == 0, "capacity of a matrix that was never created", 0, 0); break;
    case 55: ret = 1; bml_deallocate(&Z); break; }
    sx_assert(ret, "a matrix that was never created was accepted", w, 0); sx_allow_exit(0); bml_deallocate(&A);
}
/* results that do not fit the rows: refused, never written past the row; results that fit: right */
void h_C34cap(void)
{
    setup(); op_gen = 0; world w; make(&w); int op = sx_param("op", 0); if (!op_ok(op, FMT)) return;
    sx_allow_exit(1); op_run(&w, op, 0, sx_param("same", 0) ? 0 : 1, 2, op != O_DIAGZ && op != O_INV && op != O_GROUP); sx_allow_exit(0); op_free(&w);
}
/* files that do not describe a matrix of that size */
void h_C34file(void)
{
    setup(); static const int bad[] = { -2147483647 - 1, -1, 0, 1, 2, 3, 4, 2147483647 }; int how = sx_param("how", 0), a = bad[sx_choice("a", 8)], b = how ? bad[sx_choice("b", 8)] : a, ok; dm R; bml_matrix_t *T = plain("T", &R); const char *cx = CX ? "complex" : "real"; FILE *fp = fopen("c34x.mtx", "w");
    fprintf(fp, "%%%%MatrixMarket matrix coordinate %s general\n", cx);
    if (how == 0) { fprintf(fp, "%d %d 1\n1 1 7.\n", a, b); if (CX) { fclose(fp); fp = fopen("c34x.mtx", "w"); fprintf(fp, "%%%%MatrixMarket matrix coordinate %s general\n%d %d 1\n1 1 7. 0.\n", cx, a, b); } ok = a == N && b == N; }
    else { fprintf(fp, CX ? "%d %d 1\n%d %d 7. 0.\n" : "%d %d 1\n%d %d 7.\n", N, N, a, b); ok = a >= 1 && a <= N && b >= 1 && b <= N; }
    fclose(fp); sx_allow_exit(!ok); bml_read_bml_matrix(T, "c34x.mtx"); sx_assert(ok, how ? "an entry outside of the matrix was accepted" : "a file with a matrix of another size was accepted", a, b);
    kid(&R, 0); if (how) R.re[F(a - 1, b - 1)] = 7; else R.re[0] = 7; chkm(T, &R, 0, "matrix read from a file"); sx_allow_exit(0); bml_deallocate(&T); remove("c34x.mtx");
}
