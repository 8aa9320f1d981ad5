/* C02..C16: element access, conversion, copies and matrix algebra against the dense formulas */
#include "lib.h"
#define F(i,j) ((i)*N+(j))
/* ---- C02: assignment sequences */
void h_C02(void)
{
    setup(); dm R; symA(&R, "A"); bml_matrix_t *A = mkA(&R); int M = sx_param("M", N), steps = sx_param("steps", 2), ops = sx_param("ops", 15); char st[MX*MX]; /* may the position be stored? */
    double thr = thrparam(); char tmp[16]; double small[MX*MX];
    for (int i = 0; i < N * N; i++) { small[i] = 0; st[i] = sx_param("build", 0) == 5 || R.re[i] != 0 || R.im[i] != 0; }
    for (int s = 0; s < steps; s++)
    {
        int op = sx_choice("op", 4); sx_assume(ops >> op & 1);
        if (op == 0 || op == 1)
        {
            int i = sx_choice("i", N), j = sx_choice("j", N), k = F(i, j);
            if (op == 1) sx_assume(!st[k]);
            if (!st[k]) { int c = 0; for (int q = 0; q < N; q++) c += st[F(i, q)]; sx_assume(c < M); } /* a full row has its own check */
            R.re[k] = sx_real("v", op == 1 ? NZ : ANY); R.im[k] = CX ? sx_real("v", ANY) : 0; small[k] = 0; put(tmp, 0, PREC, R.re[k], R.im[k]);
            if (op == 0) bml_set_element(A, i, j, tmp); else bml_set_element_new(A, i, j, tmp);
            st[k] = 1;
        }
        else if (op == 2)
        {
            int i = sx_choice("i", N); sx_assume(M >= N); void *row = malloc(N * esz(PREC));
            for (int j = 0; j < N; j++) { int k = F(i, j); R.re[k] = sx_real("v", ANY); R.im[k] = CX ? sx_real("v", ANY) : 0; small[k] = thr; st[k] = 1; put(row, j, PREC, R.re[k], R.im[k]); }
            bml_set_row(A, i, row, thr);
            for (int j = 0; j < N; j++) sx_eq(getre(row, j, PREC), R.re[F(i, j)], "set_row changed the caller's row", i, j);
            free(row);
        }
        else
        {
            void *d = malloc(N * esz(PREC));
            for (int i = 0; i < N; i++) { int k = F(i, i); if (!st[k]) { int c = 0; for (int q = 0; q < N; q++) c += st[F(i, q)]; sx_assume(c < M); } R.re[k] = sx_real("v", ANY); R.im[k] = CX ? sx_real("v", ANY) : 0; small[k] = thr; st[k] = 1; put(d, i, PREC, R.re[k], R.im[k]); }
            bml_set_diagonal(A, d, thr);
            for (int i = 0; i < N; i++) sx_eq(getre(d, i, PREC), R.re[F(i, i)], "set_diagonal changed the caller's array", i, i);
            free(d);
        }
    }
    wf(A, "malformed storage after assignments"); dm G; rd(A, &G);
    for (int i = 0; i < N; i++)
    {
        void *row = bml_get_row(A, i);
        for (int j = 0; j < N; j++)
        {
            int k = F(i, j); void *e = bml_get_element(A, i, j);
            sx_thr(G.re[k], G.im[k], R.re[k], R.im[k], small[k], 1, "export differs from the assigned value", i, j);
            sx_thr(getre(e, 0, PREC), getim(e, 0, PREC), R.re[k], R.im[k], small[k], 1, "get_element differs from the assigned value", i, j);
            sx_thr(getre(row, j, PREC), getim(row, j, PREC), R.re[k], R.im[k], small[k], 1, "get_row differs from the assigned value", i, j);
        }
        bml_free_memory(row);
    }
    void *d = bml_get_diagonal(A);
    for (int i = 0; i < N; i++) { int k = F(i, i); sx_thr(getre(d, i, PREC), getim(d, i, PREC), R.re[k], R.im[k], small[k], 1, "get_diagonal differs from the assigned value", i, i); }
    bml_free_memory(d);
    if (FMT == dense || FMT == ellpack) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int k = F(i, j); double re, im = 0;
        switch (PREC) { case single_real: re = bml_get_element_single_real(A, i, j); break; case double_real: re = bml_get_element_double_real(A, i, j); break;
            case single_complex: { float complex z = bml_get_element_single_complex(A, i, j); re = crealf(z); im = cimagf(z); break; } default: { double complex z = bml_get_element_double_complex(A, i, j); re = creal(z); im = cimag(z); } }
        sx_thr(re, im, R.re[k], R.im[k], small[k], 1, "typed get_element differs from the assigned value", i, j); }
    obsm("o", &G); bml_deallocate(&A);
}
/* ---- C03: conversion */
void h_C03(void)
{
    setup(); dm R; symA(&R, "A"); bml_matrix_t *A = mkA(&R); int f2 = sx_param("fmt2", 1), M2 = sx_param("M2", N);
    bml_matrix_t *B = bml_convert(A, f2, PREC, M2, sequential);
    sx_assert(bml_get_type(B) == f2, "converted matrix has the wrong format", bml_get_type(B), f2);
    sx_assert(bml_get_precision(B) == PREC, "converted matrix has the wrong precision", bml_get_precision(B), PREC);
    wf(B, "malformed storage after conversion"); chkm(B, &R, 0, "converted matrix differs from its source"); chkm(A, &R, 0, "conversion changed its source");
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { void *e = bml_get_element(B, i, j); sx_eq(getre(e, 0, PREC), R.re[F(i, j)], "converted element differs", i, j); }
    bml_deallocate(&A); chkm(B, &R, 0, "converted matrix depends on its source"); bml_deallocate(&B);
}
/* ---- C04: copy and clear */
void h_C04(void)
{
    setup(); dm R, Z; symA(&R, "A"); bml_matrix_t *A = mkA(&R), *B; int how = sx_param("how", 0); zerod(&Z, N);
    if (how == 2) { bml_clear(A); wf(A, "malformed storage after clear"); chkm(A, &Z, 0, "cleared matrix has a non-zero entry");
        char t[16]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { void *e = bml_get_element(A, i, j); sx_eq(getre(e, 0, PREC), 0, "cleared matrix has a non-zero element", i, j); }
        put(t, 0, PREC, 2, CX ? 1 : 0); bml_set_element(A, N - 1, 0, t); Z.re[F(N-1,0)] = 2; Z.im[F(N-1,0)] = CX ? 1 : 0; chkm(A, &Z, 0, "cleared matrix cannot be refilled"); bml_deallocate(&A); return; }
    if (how == 0) B = bml_copy_new(A); else { B = stale("S"); bml_copy(A, B); }
    sx_assert(bml_get_N(B) == N && (how == 1 || bml_get_M(B) == bml_get_M(A)) && bml_get_type(B) == FMT && bml_get_precision(B) == PREC, "copy has another shape, format or precision", 0, 0);
    wf(B, "malformed storage after copy"); chkm(B, &R, 0, "copy differs from the original"); chkm(A, &R, 0, "copying changed the original");
    /* independence, both ways */
    dm R2; copyd(&R2, &R); char t[16]; int i = sx_choice("i", N), j = sx_choice("j", N); double v = sx_real("v", NZ); put(t, 0, PREC, v, 0); if (sx_param("M", N) < N) sx_assume(i == j);
    R2.re[F(i, j)] = v; R2.im[F(i, j)] = 0; bml_set_element(A, i, j, t); chkm(B, &R, 0, "changing the original changed the copy"); chkm(A, &R2, 0, "original wrong after the copy");
    bml_clear(A); chkm(B, &R, 0, "clearing the original changed the copy");
    bml_set_element(B, j, i, t); R.re[F(j, i)] = v; R.im[F(j, i)] = 0; chkm(A, &Z, 0, "changing the copy changed the original");
    bml_deallocate(&A); chkm(B, &R, 0, "freeing the original changed the copy"); bml_deallocate(&B);
}
/* scalars: kind 0 any real, 1 non-zero, 2 zero, 3 one, 4 minus one */
static double scl(const char *n, const char *p) { int k = sx_param(p, 0); return k == 0 ? sx_real(n, ANY) : k == 1 ? sx_real(n, NZ) : k == 2 ? 0.0 : k == 3 ? 1.0 : k == 5 ? sx_real(n, POS) : -1.0; }
/* ---- C05: addition */
void h_C05(void)
{
    setup(); int how = sx_param("how", 0); dm R, S, W; symA(&R, "A"); bml_matrix_t *A = mkA(&R); double thr = thrparam();
    if (how == 0)
    {
        symA(&S, "B"); int self = sx_param("self", 0); bml_matrix_t *B = self ? A : mk(&S, FMT, PREC, sx_param("MB", sx_param("M", N)), sx_param("buildB", sx_param("build", 0)));
        double al = scl("alpha", "al"), be = scl("beta", "be");
        bml_add(A, B, al, be, thr); dlin(&W, al, &R, be, self ? &R : &S); wf(A, "malformed storage after add"); chkm(A, &W, thr, "add: result is not alpha*A + beta*B");
        if (!self) { chkm(B, &S, 0, "add changed B"); bml_deallocate(&B); }
    }
    else
    {
        double al = how == 2 ? scl("alpha", "al") : 1, be = scl("beta", "be"); dm Id; Id.N = N; kid(&Id, 1);
        if (how == 1) bml_add_identity(A, be, thr); else bml_scale_add_identity(A, al, be, thr);
        dlin(&W, al, &R, be, &Id); wf(A, "malformed storage after adding the identity"); chkm(A, &W, thr, how == 1 ? "add_identity: result is not A + beta*I" : "scale_add_identity: result is not alpha*A + beta*I");
    }
    bml_deallocate(&A);
}
/* ---- C06 */
void h_C06(void)
{
    setup(); dm R, S, W; symA(&R, "A"); symA(&S, "B"); bml_matrix_t *A = mkA(&R), *B = mk(&S, FMT, PREC, sx_param("MB", sx_param("M", N)), sx_param("build", 0));
    double al = scl("alpha", "al"), be = scl("beta", "be"), thr = thrparam(), t = bml_add_norm(A, B, al, be, thr), w = 0;
    for (int i = 0; i < N * N; i++) { double dr = R.re[i] - S.re[i], di = R.im[i] - S.im[i]; w += dr * dr + di * di; }
    dlin(&W, al, &R, be, &S); wf(A, "malformed storage after add_norm"); chkm(A, &W, thr, "add_norm: result is not alpha*A + beta*B"); chkm(B, &S, 0, "add_norm changed B");
    sx_eq(t, w, "add_norm: reported norm is not the sum of |A-B|^2", 0, 0); sx_observe("t", t); bml_deallocate(&A); bml_deallocate(&B);
}
/* product checks with threshold: P = exact product, added to base C */
static void chkprod(bml_matrix_t *C, const dm *P, double al, double be, const dm *C0, double thr, const char *msg)
{
    dm G; rd(C, &G); obsm("o", &G);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
    {
        int k = F(i, j); double wr = al * P->re[k] + be * C0->re[k], wi = al * P->im[k] + be * C0->im[k];
        if (sx_param("thr", 0) == 0 || (al == 1 && be == 0)) { sx_thr(G.re[k], G.im[k], wr, wi, thr, 1, msg, i, j); continue; }
        if (G.re[k] == wr && G.im[k] == wi) { sx_eq(G.re[k], wr, msg, i, j); continue; }
        double p2 = P->re[k] * P->re[k] + P->im[k] * P->im[k], t2 = thr * thr, br = be * C0->re[k], bi = be * C0->im[k];
        if (G.re[k] == 0 && G.im[k] == 0 && wr * wr + wi * wi <= t2) { sx_cover("whole result below the threshold"); continue; }
        if (p2 <= t2) { sx_thr(G.re[k], G.im[k], br, bi, thr, 1, msg, i, j); continue; }
        sx_thr(G.re[k], G.im[k], wr, wi, thr, 1, msg, i, j);
    }
}
/* ---- C07 */
void h_C07(void)
{
    setup(); dm R, S, T, P; symA(&R, "A"); int same = sx_param("same", 0); if (same) S = R; else symA(&S, "B"); symA(&T, "C");
    bml_matrix_t *A = mkA(&R), *B = same ? A : mk(&S, FMT, PREC, sx_param("MB", sx_param("M", N)), sx_param("build", 0)), *C = mk(&T, FMT, PREC, sx_param("MC", sx_param("M", N)), sx_param("build", 0));
    double al = scl("alpha", "al"), be = scl("beta", "be"), thr = thrparam();
    bml_multiply(A, B, C, al, be, thr); dmul(&P, &R, &S); wf(C, "malformed storage after multiply"); chkprod(C, &P, al, be, &T, thr, "multiply: result is not alpha*A*B + beta*C");
    chkm(A, &R, 0, "multiply changed A"); if (!same) { chkm(B, &S, 0, "multiply changed B"); bml_deallocate(&B); }
    bml_deallocate(&A); bml_deallocate(&C);
}
/* ---- C08 */
void h_C08(void)
{
    setup(); int how = sx_param("how", 0); dm R, S, P, Z; symA(&R, "A"); bml_matrix_t *A = mkA(&R), *C = stale("S"); double thr = thrparam(); zerod(&Z, N);
    if (how == 0)
    {
        double *t = bml_multiply_x2(A, C, thr), t1 = 0, t2 = 0; dmul(&P, &R, &R); for (int i = 0; i < N; i++) { t1 += R.re[F(i, i)]; t2 += P.re[F(i, i)]; }
        double g1, g2; g1 = t[0]; g2 = t[1];
        sx_eq(g1, t1, "multiply_x2: first returned trace is not the trace of X", 0, 0);
        if (sx_param("thr", 0) == 0) sx_eq(g2, t2, "multiply_x2: second returned trace is not the trace of X*X", 0, 0);
        else { int ok = g2 == t2; for (int m = 0; !ok && m < 1 << N; m++) { double s = 0; int fits = 1; for (int i = 0; i < N; i++) if (m >> i & 1) s += P.re[F(i, i)]; else if (!(P.re[F(i, i)] <= thr && P.re[F(i, i)] >= -thr)) fits = 0; if (fits && g2 == s) ok = 1; }
            sx_assert(ok, "multiply_x2: second returned trace leaves out more than sub-threshold terms", 0, 0); }
        bml_free_memory(t); wf(C, "malformed storage after multiply_x2"); chkprod(C, &P, 1, 0, &Z, thr, "multiply_x2: result is not X*X"); chkm(A, &R, 0, "multiply_x2 changed X");
    }
    else
    {
        symA(&S, "B"); int same = sx_param("same", 0); if (same) S = R; bml_matrix_t *B = same ? A : mk(&S, FMT, PREC, sx_param("MB", sx_param("M", N)), sx_param("build", 0));
        if (how == 1) bml_multiply_AB(A, B, C, thr); else bml_multiply_adjust_AB(A, B, C, thr);
        dmul(&P, &R, &S); wf(C, "malformed storage after multiply_AB"); chkprod(C, &P, 1, 0, &Z, thr, how == 1 ? "multiply_AB: result is not A*B" : "multiply_adjust_AB: result is not A*B"); chkm(A, &R, 0, "multiply_AB changed A"); if (!same) { chkm(B, &S, 0, "multiply_AB changed B"); bml_deallocate(&B); }
    }
    bml_deallocate(&A); bml_deallocate(&C);
}
/* ---- C09 */
void h_C09(void)
{
    setup(); dm R, S, W; symA(&R, "A"); int same = sx_param("same", 0); if (same) S = R; else symA(&S, "B"); W.N = N;
    bml_matrix_t *A = mkA(&R), *B = same ? A : mk(&S, FMT, PREC, sx_param("MB", sx_param("M", N)), sx_param("build", 0)), *C = stale("S"); double thr = thrparam();
    bml_element_multiply_AB(A, B, C, thr); for (int i = 0; i < N * N; i++) mulz(R.re[i], R.im[i], S.re[i], S.im[i], &W.re[i], &W.im[i]);
    wf(C, "malformed storage after element_multiply"); chkm(C, &W, thr, "element_multiply: result is not A_ij*B_ij"); chkm(A, &R, 0, "element_multiply changed A"); if (!same) { chkm(B, &S, 0, "element_multiply changed B"); bml_deallocate(&B); }
    bml_deallocate(&A); bml_deallocate(&C);
}
/* ---- C10 */
void h_C10(void)
{
    setup(); int how = sx_param("how", 0); dm R, W; symA(&R, "A"); W.N = N; bml_matrix_t *A = mkA(&R), *B = 0; double sr = scl("s", "al"), si = CX ? sx_real("si", ANY) : 0; void *f = scal(PREC, sr, si);
    for (int i = 0; i < N * N; i++) mulz(R.re[i], R.im[i], sr, si, &W.re[i], &W.im[i]);
    if (how == 0) { bml_scale_inplace(f, A); wf(A, "malformed storage after scale_inplace"); chkm(A, &W, 0, "scale_inplace: wrong entry"); }
    else
    {
        if (how == 1) B = bml_scale_new(f, A); else if (how == 2) { B = stale("S"); bml_scale(f, A, B); } else { bml_scale(f, A, A); wf(A, "malformed storage after scale onto itself"); chkm(A, &W, 0, "scale onto itself: wrong entry"); free(f); bml_deallocate(&A); return; }
        wf(B, "malformed storage after scale"); chkm(B, &W, 0, how == 1 ? "scale_new: wrong entry" : "scale: wrong entry"); chkm(A, &R, 0, "scale changed its source");
        bml_clear(A); chkm(B, &W, 0, "scaled matrix shares storage with its source"); bml_deallocate(&B);
    }
    sx_eq(getre(f, 0, PREC), sr, "scale changed the scale factor", 0, 0); free(f); bml_deallocate(&A);
}
/* ---- C11 */
void h_C11(void)
{
    setup(); int how = sx_param("how", 0); dm R, W; symA(&R, "A"); W.N = N; bml_matrix_t *A = mkA(&R);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { W.re[F(i, j)] = R.re[F(j, i)]; W.im[F(i, j)] = R.im[F(j, i)]; }
    if (how == 0) { bml_transpose(A); wf(A, "malformed storage after transpose"); chkm(A, &W, 0, "transpose: wrong entry"); }
    else { bml_matrix_t *B = bml_transpose_new(A); sx_assert(bml_get_N(B) == N && bml_get_M(B) == bml_get_M(A), "transpose_new: wrong shape", 0, 0); wf(B, "malformed storage after transpose_new"); chkm(B, &W, 0, "transpose_new: wrong entry"); chkm(A, &R, 0, "transpose_new changed its argument"); bml_deallocate(&B); }
    bml_deallocate(&A);
}
/* ---- C12 */
void h_C12(void)
{
    setup(); int adj = sx_param("adj", 0), tri = sx_choice("tri", 2); static const char tc[4] = { 'u', 'l', 'U', 'L' }; char t = tc[tri]; int up = t == 'u' || t == 'U';
    dm R, W; symA(&R, "A"); W.N = N; 
    if (sx_param("half", 0)) for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (up ? i > j : i < j) R.re[F(i, j)] = R.im[F(i, j)] = 0;
    bml_matrix_t *A = mkA(&R);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int src = up ? (i <= j ? F(i, j) : F(j, i)) : (i >= j ? F(i, j) : F(j, i)); int mir = src != F(i, j); W.re[F(i, j)] = R.re[src]; W.im[F(i, j)] = adj && mir ? -R.im[src] : R.im[src]; }
    if (adj) bml_adjungate_triangle(A, &t); else bml_transpose_triangle(A, t);
    wf(A, "malformed storage after a triangle reflection"); chkm(A, &W, 0, adj ? "adjungate_triangle: wrong entry" : "transpose_triangle: wrong entry"); bml_deallocate(&A);
}
/* ---- C13 */
void h_C13(void)
{
    setup(); int how = sx_param("how", 0); dm R, G; symA(&R, "A"); bml_matrix_t *A = mkA(&R), *B = A; double thr = thrparam();
    if (how == 0) bml_threshold(A, thr); else { B = bml_threshold_new(A, thr); chkm(A, &R, 0, "threshold_new changed its argument"); }
    wf(B, "malformed storage after threshold"); rd(B, &G); obsm("o", &G);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
    {
        int k = F(i, j); sx_thr(G.re[k], G.im[k], R.re[k], R.im[k], thr, 1, "threshold: an entry above the threshold is lost or changed", i, j);
        if (FMT != ellblock && !(G.re[k] == 0 && G.im[k] == 0)) sx_assert(R.re[k] * R.re[k] + R.im[k] * R.im[k] > thr * thr, "threshold: an entry not above the threshold is kept", i, j);
    }
    if (how) bml_deallocate(&B); bml_deallocate(&A);
}
/* ---- C14 */
void h_C14(void)
{
    setup(); int how = sx_param("how", 0); dm R, S; symA(&R, "A"); bml_matrix_t *A = mkA(&R); double w = 0;
    if (how == 0) { double t = bml_trace(A); for (int i = 0; i < N; i++) w += R.re[F(i, i)]; sx_eq(t, w, "trace: not the sum of the diagonal", 0, 0); sx_observe("t", t); }
    else
    {
        int same = sx_param("same", 0); if (same) S = R; else symA(&S, "B"); bml_matrix_t *B = same ? A : mk(&S, FMT, PREC, sx_param("MB", sx_param("M", N)), sx_param("build", 0));
        double t = bml_trace_mult(A, B); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w += R.re[F(i, j)] * S.re[F(j, i)] - R.im[F(i, j)] * S.im[F(j, i)];
        sx_eq(t, w, "trace_mult: not the trace of the product", 0, 0); sx_observe("t", t); if (!same) { chkm(B, &S, 0, "trace_mult changed B"); bml_deallocate(&B); }
    }
    chkm(A, &R, 0, "trace changed its operand"); bml_deallocate(&A);
}
/* g is the sum of the terms q[0..n) without some whose magnitude does not exceed thr */
static void chksub(double g, const double *q, int n, double thr, const char *msg)
{
    double w = 0, s = 0; int ns = 0, sm[MX*MX];
    for (int i = 0; i < n; i++) { if (q[i] == 0) continue; if (q[i] <= thr && q[i] >= -thr) sm[ns++] = i; else w += q[i]; }
    for (int m = 0; m < 1 << ns; m++) { s = w; for (int i = 0; i < ns; i++) if (m >> i & 1) s += q[sm[i]]; if (g == s) return; }
    sx_assert(0, msg, 0, 0);
}
/* ---- C15 */
void h_C15(void)
{
    setup(); int how = sx_param("how", 0); dm R, S; symA(&R, "A"); bml_matrix_t *A = mkA(&R), *B = 0; double w = 0, kept = 0, g = 0, thr = thrparam();
    if (how == 2 || how == 3 || how == 5) { symA(&S, "B"); B = mk(&S, FMT, PREC, sx_param("MB", sx_param("M", N)), sx_param("build", 0)); }
    if (how == 0 || how == 4) { for (int i = 0; i < N * N; i++) w += R.re[i] * R.re[i] + R.im[i] * R.im[i]; g = how == 0 ? bml_sum_squares(A) : bml_fnorm(A); if (how == 0) sx_eq(g, w, "sum_squares: not the sum of |A_ij|^2", 0, 0); else { sx_eq(g * g, w, "fnorm: not the Frobenius norm", 0, 0); sx_sign(g, ZERO | POS, "fnorm: negative norm", 0, 0); } }
    else if (how == 1) { int core = sx_choice("core", N + 1); g = bml_sum_squares_submatrix(A, core); for (int i = 0; i < core; i++) for (int j = 0; j < core; j++) w += R.re[F(i, j)] * R.re[F(i, j)] + R.im[F(i, j)] * R.im[F(i, j)]; sx_eq(g, w, "sum_squares_submatrix: not the sum over the leading block", core, 0); }
    else if (how == 2)
    {
        double al = scl("alpha", "al"), be = scl("beta", "be"); g = bml_sum_squares2(A, B, al, be, thr);
        for (int i = 0; i < N * N; i++) { double r = al * R.re[i] + be * S.re[i], m = al * R.im[i] + be * S.im[i], q = r * r + m * m; w += q; if (sx_param("thr", 0) && q > thr * thr) kept += q; }
        if (!sx_param("thr", 0)) sx_eq(g, w, "sum_squares2: not the sum of |alpha*A + beta*B|^2", 0, 0);
        else { sx_sign(w - g, ZERO | POS, "sum_squares2: more than the sum of |alpha*A + beta*B|^2", 0, 0); sx_sign(g - kept, ZERO | POS, "sum_squares2: leaves out terms above the threshold", 0, 0); }
    }
    else if (how == 3)
    {
        double al = scl("alpha", "al"); g = bml_sum_AB(A, B, al, thr);
        double q[MX*MX]; for (int i = 0; i < N * N; i++) { q[i] = al * (R.re[i] * S.re[i] - R.im[i] * S.im[i]); w += q[i]; }
        if (!sx_param("thr", 0)) sx_eq(g, w, "sum_AB: not alpha times the sum of A_ij*B_ij", 0, 0);
        else chksub(g, q, N * N, thr, "sum_AB: not the sum of alpha*A_ij*B_ij up to terms not above the threshold");
    }
    else { for (int i = 0; i < N * N; i++) { double dr = R.re[i] - S.re[i], di = R.im[i] - S.im[i]; w += dr * dr + di * di; } g = bml_fnorm2(A, B); sx_eq(g * g, w, "fnorm2: not the Frobenius norm of A - B", 0, 0); sx_sign(g, ZERO | POS, "fnorm2: negative norm", 0, 0); }
    sx_observe("g", g); chkm(A, &R, 0, "a norm changed its operand"); if (B) { chkm(B, &S, 0, "a norm changed its operand"); bml_deallocate(&B); } bml_deallocate(&A);
}
/* equality of a computed value with one of several candidates; replayed natively up to rounding */
static int same(double a, double b) { return sx_native() ? fabs(a - b) <= 1e-4 * (1 + fabs(a)) : a == b; }
static double absz(double r, double i) { return CX ? cabs(r + i * _Complex_I) : fabs(r); }
/* ---- C16 */
void h_C16(void)
{
    setup(); int how = sx_param("how", 0); dm R, W; symA(&R, "A");
    if (CX) for (int i = 0; i < N; i++) R.im[F(i, i)] = 0;   /* bounds are defined for Hermitian matrices: real diagonal */
    /* magnitudes representable in the precision (an infinite entry is outside the claim) */
    for (int i = 0; i < N * N; i++) { sx_assume_sign(1e30 - R.re[i], POS); sx_assume_sign(1e30 + R.re[i], POS); if (CX) { sx_assume_sign(1e30 - R.im[i], POS); sx_assume_sign(1e30 + R.im[i], POS); } }
    bml_matrix_t *A = mkA(&R);
    if (how <= 1)
    {
        int n = how == 0 ? N : 1 + sx_choice("nrows", N); double *e = how == 0 ? bml_gershgorin(A) : bml_gershgorin_partial(A, n), lo = e[0], hi = e[1]; int lok = 0, hik = 0;
        for (int i = 0; i < n; i++)
        {
            double r = 0; for (int j = 0; j < N; j++) if (j != i) r += absz(R.re[F(i, j)], R.im[F(i, j)]);
            double a = R.re[F(i, i)] - r, b = R.re[F(i, i)] + r;
            sx_sign(a - lo, ZERO | POS, "gershgorin: lower bound above a row's disc", i, 0); sx_sign(hi - b, ZERO | POS, "gershgorin: upper bound below a row's disc", i, 0);
            if (!lok && same(a, lo)) lok = 1; if (!hik && same(b, hi)) hik = 1;
        }
        sx_assert(lok, "gershgorin: lower bound is not attained by any row", 0, 0); sx_assert(hik, "gershgorin: upper bound is not attained by any row", 0, 0);
        sx_observe("lo", lo); sx_observe("hi", hi); bml_free_memory(e); chkm(A, &R, 0, "gershgorin changed the matrix");
    }
    else if (how == 2)
    {
        double lo = sx_real("lo", ANY), d = sx_real("d", POS), hi = lo + d; dm Id; Id.N = N; kid(&Id, 1); bml_normalize(A, lo, hi); dlin(&W, -1 / d, &R, hi / d, &Id);
        wf(A, "malformed storage after normalize"); chkm(A, &W, 0, "normalize: result is not (hi*I - A)/(hi - lo)");
    }
    else { int flag = sx_choice("flag", 2); void *o = bml_accumulate_offdiag(A, flag); for (int i = 0; i < N; i++) { double r = 0; for (int j = 0; j < N; j++) if (flag || j != i) r += absz(R.re[F(i, j)], R.im[F(i, j)]); sx_eq(getre(o, i, PREC), r, "accumulate_offdiag: not the sum of magnitudes in the row", i, flag); if (CX) sx_eq(getim(o, i, PREC), 0, "accumulate_offdiag: imaginary part", i, flag); sx_observe("r", getre(o, i, PREC)); } bml_free_memory(o); chkm(A, &R, 0, "accumulate_offdiag changed the matrix"); }
    bml_deallocate(&A);
}
