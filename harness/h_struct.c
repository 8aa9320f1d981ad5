#include "lib.h"
#include "ellpack/bml_types_ellpack.h"
#include "csr/bml_types_csr.h"
#include "ellblock/bml_types_ellblock.h"
#include "dense/bml_types_dense.h"
#define F(i,j) ((i)*N+(j))
static int nz(const dm *A, int k) { return A->re[k] != 0 || A->im[k] != 0; }
static int above(const dm *A, int k, double thr) { if (!CX) return A->re[k] > thr || A->re[k] < -thr; return A->re[k] * A->re[k] + A->im[k] * A->im[k] > thr * thr; }
static void inrange(double v, const char *msg, int i, int j) { sx_sign(v, ZERO | POS, msg, i, j); sx_sign(1 + 1e-6 - v, POS, msg, i, j); }
/* C17: introspection */
void h_C17(void)
{
    setup(); dm R; symA(&R, "A"); int M = sx_param("M", N); double thr = thrparam(); bml_matrix_t *A = mkA(&R);
    sx_assert(bml_get_type(A) == FMT, "bml_get_type differs from the type created", FMT, 0);
    sx_assert(bml_get_deep_type(A) == FMT, "bml_get_deep_type differs from the type created", FMT, 0);
    sx_assert(bml_get_precision(A) == PREC, "bml_get_precision differs from the precision created", PREC, 0);
    sx_assert(bml_get_N(A) == N, "bml_get_N differs from the size created", N, 0);
    int gm = bml_get_M(A); if (FMT == dense) sx_assert(gm == N, "bml_get_M of a dense matrix", gm, N); else if (FMT == csr) sx_assert(gm >= M, "bml_get_M below the capacity created", gm, M); else sx_assert(gm == M, "bml_get_M differs from the capacity created", gm, M);
    sx_assert(bml_get_distribution_mode(A) == sequential, "bml_get_distribution_mode differs from the mode created", 0, 0);
    if (FMT != ellblock) sx_assert(bml_get_NB(A) == 1, "bml_get_NB of an element-wise format", bml_get_NB(A), 1); else { int b = sx_param("blocks", 0), c = 0; while (b) { c++; b /= 10; } if (c) sx_assert(bml_get_NB(A) == c, "bml_get_NB differs from the block structure", bml_get_NB(A), c); }
    sx_assert(bml_allocated(A) > 0, "bml_allocated of an existing matrix", 0, 0);
    int mx = 0, tot = 0, stored0 = FMT != dense && sx_param("build", 0) == 5; /* explicit zeros count as stored entries */
    for (int i = 0; i < N; i++)
    {
        int c = 0; for (int j = 0; j < N; j++) { if (nz(&R, F(i, j))) c++; }
        if (FMT != ellblock) { int w = bml_get_row_bandwidth(A, i); sx_assert(w == c || (stored0 && w >= c && w <= N), "row bandwidth differs from the number of non-zero entries of the row", w, c); sx_observe("w", w); }
        if (c > mx) mx = c;
    }
    if (FMT != ellblock) { int w = bml_get_bandwidth(A); sx_assert(w == mx || (stored0 && w >= mx && w <= N), "matrix bandwidth differs from the largest row count", w, mx); }
    for (int k = 0; k < N * N; k++) if (above(&R, k, thr)) tot++;
    sx_eq(bml_get_sparsity(A, thr), 1.0 - (double) tot / ((double) N * N), "sparsity differs from the fraction of entries at or below the threshold", tot, N);
    chkm(A, &R, 0, "a query changed the matrix"); bml_deallocate(&A);
    sx_assert(bml_get_type(NULL) == type_uninitialized && bml_get_N(NULL) == -1 && bml_get_M(NULL) == 0 && bml_get_NB(NULL) == 0, "queries on an uninitialised matrix", 0, 0);
    sx_assert(bml_allocated(NULL) <= 0, "bml_allocated of no matrix", 0, 0);
}
/* C17: sparsity of matrices too large to fill: one stored entry per row of a sparse matrix */
void h_C17big(void)
{
    setup(); bml_matrix_t *A = bml_identity_matrix(FMT, PREC, N, 1, sequential);
    double s = bml_get_sparsity(A, 0); sx_eq(s, 1.0 - 1.0 / N, "sparsity of a large identity matrix", N, 0); sx_assert(bml_get_N(A) == N, "size of a large matrix", N, 0); bml_deallocate(&A);
}
static bml_matrix_t *construct(int what, int M)
{
    bml_matrix_dimension_t d = { N, N, M };
    switch (what) {
    case 0: return bml_zero_matrix(FMT, PREC, N, M, sequential);
    case 1: return bml_identity_matrix(FMT, PREC, N, M, sequential);
    case 2: return bml_banded_matrix(FMT, PREC, N, M, sequential);
    case 3: return bml_random_matrix(FMT, PREC, N, M, sequential);
    case 4: return bml_noinit_matrix(FMT, PREC, N, M, sequential);
    case 5: return bml_noinit_rectangular_matrix(FMT, PREC, d, sequential);
    default: { int b = sx_param("bs", 21), bs[8], tmp[8], nb = 0; while (b) { tmp[nb++] = b % 10; b /= 10; } for (int i = 0; i < nb; i++) bs[i] = tmp[nb - 1 - i]; return bml_block_matrix_ellblock(PREC, nb, nb, M, bs, sequential); }
    }
}
/* C18: constructors */
void h_C18(void)
{
    setup(); int what = sx_param("what", 0), M = sx_param("M", N), warm = sx_param("warm", 0);
    if (warm) { bml_matrix_t *Z = bml_zero_matrix(FMT, PREC, warm, 1, sequential); bml_deallocate(&Z); } /* another size first: default block table */
    bml_matrix_t *A = construct(what, M);
    sx_assert(bml_get_N(A) == N && bml_get_type(A) == FMT && bml_get_precision(A) == PREC && bml_get_distribution_mode(A) == sequential, "constructor returns a matrix of another shape", bml_get_N(A), N);
    if (FMT == ellpack || FMT == ellblock) sx_assert(bml_get_M(A) == M, "constructor returns a matrix of another capacity", bml_get_M(A), M);
    if (FMT == csr) sx_assert(bml_get_M(A) >= M, "constructor returns a matrix of another capacity", bml_get_M(A), M);
    if (FMT == ellblock) { bml_matrix_ellblock_t *E = A; int s = 0; for (int i = 0; i < E->NB; i++) { sx_assert(E->bsize[i] > 0, "empty block in the block structure", i, E->bsize[i]); s += E->bsize[i]; } sx_assert(s == N, "block sizes do not add up to the matrix size", s, N); sx_assert(E->MB >= 1 && E->MB <= E->NB, "blocks per row out of range", E->MB, E->NB); }
    dm R;
    if (what == 4 || what == 5)
    { /* contents unspecified: filling it must work */
        if (FMT == dense) { char row[16 * MX]; for (int i = 0; i < N; i++) { for (int j = 0; j < N; j++) put(row, j, PREC, 0, 0); bml_set_row(A, i, row, 0); } } else bml_clear(A);
        zerod(&R, N);
    }
    else
    {
        wf(A, "malformed storage after construction"); rd(A, &R);
        for (int i = 0; i < N; i++)
        {
            int c = 0;
            for (int j = 0; j < N; j++)
            {
                int k = F(i, j);
                if (what == 0 || what == 6) { sx_eq(R.re[k], 0, "zero matrix has a non-zero entry", i, j); sx_eq(R.im[k], 0, "zero matrix has a non-zero entry", i, j); }
                if (what == 1) { sx_eq(R.re[k], i == j, "identity matrix has a wrong entry", i, j); sx_eq(R.im[k], 0, "identity matrix has a wrong entry", i, j); }
                if (what == 2) { int lo = i - M / 2, hi = lo + M - 1; if (j < lo || j > hi) { sx_eq(R.re[k], 0, "banded matrix has an entry outside the band", i, j); sx_eq(R.im[k], 0, "banded matrix has an entry outside the band", i, j); } }
                if (what == 2 && sx_param("rpos", 0)) { int lo = i - M / 2, hi = lo + M - 1; if (j >= lo && j <= hi) sx_sign(1e12 * R.re[k] - 1, POS, "banded matrix lacks an entry inside the band", i, j); } /* rpos: every random number is positive */
                if (what == 2 || what == 3) { inrange(R.re[k], "random entry outside [0,1]", i, j); if (CX) inrange(R.im[k], "random entry outside [0,1]", i, j); }
            }
            (void) c;
            if (FMT == ellpack || FMT == csr) { int w = bml_get_row_bandwidth(A, i); sx_assert(w <= M, "row holds more than M entries", w, M); if (what == 0) sx_assert(w == 0, "zero matrix stores entries", w, 0); }
        }
    }
    obsm("r", &R);
    /* usable: copy, scale, set an element, transpose twice */
    if (sx_param("use", 1))
    {
        bml_matrix_t *B = bml_copy_new(A), *Z = bml_zero_matrix(FMT, PREC, N, M, sequential); char t[16]; put(t, 0, PREC, 2, 0);
        bml_scale_inplace(t, A); for (int k = 0; k < N * N; k++) { R.re[k] *= 2; R.im[k] *= 2; } chkm(A, &R, 0, "constructed matrix, then scaled");
        bml_add(A, B, 1, -1, 0); for (int k = 0; k < N * N; k++) { R.re[k] /= 2; R.im[k] /= 2; } chkm(A, &R, 0, "constructed matrix, copied, scaled and subtracted");
        if (what != 2 && what != 3) { double v = sx_real("v", ANY); put(t, 0, PREC, v, 0); bml_set_element(A, N - 1, N - 1, t); R.re[N * N - 1] = v; R.im[N * N - 1] = 0; chkm(A, &R, 0, "constructed matrix, then an element set"); }
        bml_copy(A, Z); chkm(Z, &R, 0, "constructed matrix copied"); bml_deallocate(&B); bml_deallocate(&Z);
    }
    bml_deallocate(&A);
}
/* C18: larger sizes, default block structure: construction succeeds and every stored entry is where it may be */
void h_C18big(void)
{
    setup(); int what = sx_param("what", 2), M = sx_param("M", N); bml_matrix_t *A = construct(what, M);
    wf(A, "malformed storage after construction"); void *b = bml_export_to_dense(A, dense_row_major);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
    {
        double re = getre(b, i * N + j, PREC), im = getim(b, i * N + j, PREC); int lo = i - M / 2, hi = lo + M - 1;
        if (what == 0 || (what == 2 && (j < lo || j > hi))) { sx_eq(re, 0, "entry outside the advertised pattern", i, j); sx_eq(im, 0, "entry outside the advertised pattern", i, j); }
        else if (what == 1) { sx_eq(re, i == j, "identity matrix has a wrong entry", i, j); sx_eq(im, 0, "identity matrix has a wrong entry", i, j); }
        else { inrange(re, "random entry outside [0,1]", i, j); if (what == 2 && sx_param("rpos", 0)) sx_sign(1e12 * re - 1, POS, "banded matrix lacks an entry inside the band", i, j); }
    }
    bml_free_memory(b); bml_deallocate(&A);
}

/* block offsets of the ellblock structure given by job parameter blocks; every offset for the other formats */
static int offs(int *o) { int b = sx_param("blocks", 0), d[8], n = 0, c = 0, t[8]; if (FMT != ellblock || !b) { for (int i = 0; i <= N; i++) o[i] = i; return N; } while (b) { t[n++] = b % 10; b /= 10; } for (int i = 0; i < n; i++) d[i] = t[n - 1 - i]; for (int i = 0; i < n; i++) { o[i] = c; c += d[i]; } o[n] = c; return n; }
/* C19: blocks */
void h_C19(void)
{
    setup(); int how = sx_param("how", 0), M = sx_param("M", N), o[MX + 1], nb = offs(o); dm RA, RB; symA(&RA, "A"); bml_matrix_t *A = mkA(&RA);
    int k = 1 + sx_choice("nblk", nb), r = sx_choice("r", nb - k + 1), c = sx_choice("c", nb - k + 1), n = o[r + k] - o[r];
    for (int i = 0; i < k; i++) if (o[r + i + 1] - o[r + i] != o[c + i + 1] - o[c + i]) return; /* ellblock: the block's rows and columns must be split alike */
    int ir = o[r], ic = o[c];
    if (how == 0)
    {
        int cap = FMT == ellpack ? n < M ? n : M : n;
        if (sx_param("tm", 0)) { cap = 1; for (int i = 0; i < n; i++) { int q = 0; for (int j = 0; j < n; j++) if (RA.re[F(ir + i, ic + j)] != 0 || RA.im[F(ir + i, ic + j)] != 0) q++; if (q > cap) cap = q; } } /* no wider than its fullest row */
        bml_matrix_t *B = bml_extract_submatrix(A, ir, ic, n, cap); RB.N = n;
        sx_assert(bml_get_N(B) == n && bml_get_type(B) == FMT && bml_get_precision(B) == PREC, "extracted block has another shape", bml_get_N(B), n);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { RB.re[i * n + j] = RA.re[F(ir + i, ic + j)]; RB.im[i * n + j] = RA.im[F(ir + i, ic + j)]; }
        wf(B, "malformed storage after extraction"); chkm(B, &RB, 0, "extracted block differs from the addressed entries"); chkm(A, &RA, 0, "extraction changed its source");
        /* independent of the source */
        char t[16]; put(t, 0, PREC, 3, 0); bml_scale_inplace(t, B); chkm(A, &RA, 0, "changing an extracted block changed its source"); bml_deallocate(&B);
    }
    else
    {
        bml_matrix_t *B; int r2 = 0, c2 = 0;
        if (how == 1 && FMT != ellblock) { symm(&RB, "B", n, CX, sx_param("pBz", 0), 0xffffffffu); B = mk(&RB, FMT, PREC, n, sx_param("build", 0)); }
        else { /* the block of a second matrix */
            dm R2; symA(&R2, "B"); bml_matrix_t *A2 = mk(&R2, FMT, PREC, M, 0); r2 = how == 2 ? r : c; c2 = how == 2 ? c : r; B = bml_extract_submatrix(A2, o[r2], o[c2], n, n); RB.N = n;
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { RB.re[i * n + j] = R2.re[F(o[r2] + i, o[c2] + j)]; RB.im[i * n + j] = R2.im[F(o[r2] + i, o[c2] + j)]; }
            bml_deallocate(&A2); }
        bml_assign_submatrix(A, B, ir, ic);
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { RA.re[F(ir + i, ic + j)] = RB.re[i * n + j]; RA.im[F(ir + i, ic + j)] = RB.im[i * n + j]; }
        wf(A, "malformed storage after assignment of a block"); chkm(A, &RA, 0, "block assignment wrote something else than the addressed entries"); chkm(B, &RB, 0, "block assignment changed the block"); bml_deallocate(&B);
        bml_matrix_t *E = bml_extract_submatrix(A, ir, ic, n, n); chkm(E, &RB, 0, "extracting the assigned block gives something else"); bml_deallocate(&E);
    }
    bml_deallocate(&A);
}
/* a list of k distinct indices below N, in any order */
static int list(int *x, int kmax, int any) { int k = 1 + sx_choice("len", kmax); for (int i = 0; i < k; i++) { x[i] = sx_choice("idx", N); if (!any) for (int j = 0; j < i; j++) if (x[j] == x[i]) return 0; } return k; }
/* C19: index lists (ellpack) */
void h_C19list(void)
{
    setup(); int how = sx_param("how", 0), M = sx_param("M", N), x[MX], k = list(x, sx_param("len", N), 0); if (!k) return; dm RA, RB; symA(&RA, "A"); bml_matrix_t *A = mkA(&RA); double thr = thrparam();
    int core = 1 + sx_choice("core", k);
    if (how == 0)
    {
        int pad = sx_param("pad", 0); bml_matrix_t *B = bml_noinit_matrix(dense, PREC, k + pad, k + pad, sequential); dm S; symall(&S, "S", k + pad, CX, ANY); bml_deallocate(&B); B = mk(&S, dense, PREC, k + pad, 0);
        bml_matrix2submatrix(A, B, x, k); copyd(&RB, &S);
        for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { RB.re[i * (k + pad) + j] = RA.re[F(x[i], x[j])]; RB.im[i * (k + pad) + j] = RA.im[F(x[i], x[j])]; }
        chkm(B, &RB, 0, "gathered submatrix differs from the addressed entries"); chkm(A, &RA, 0, "gathering changed its source"); bml_deallocate(&B);
    }
    else
    {
        bml_matrix_t *S; dm RS;
        if (how == 1) { symm(&RS, "S", k, CX, sx_param("pSz", 0), 0); S = mk(&RS, dense, PREC, k, 0); }
        else { S = bml_zero_matrix(dense, PREC, k, k, sequential); bml_matrix2submatrix(A, S, x, k); RS.N = k; for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { RS.re[i * k + j] = RA.re[F(x[i], x[j])]; RS.im[i * k + j] = RA.im[F(x[i], x[j])]; } }
        dm RT; symA(&RT, "B"); bml_matrix_t *T = mk(&RT, ellpack, PREC, M, 0);
        bml_submatrix2matrix(S, T, x, k, core, thr);
        dm G; rd(T, &G); obsm("o", &G); wf(T, "malformed storage after assembly");
        for (int i = 0; i < N; i++)
        {
            int ci = -1; for (int j = 0; j < core; j++) if (x[j] == i) ci = j;
            for (int j = 0; j < N; j++)
            {
                int cj = -1; for (int q = 0; q < k; q++) if (x[q] == j) cj = q;
                double wr = ci < 0 ? RT.re[F(i, j)] : cj < 0 ? 0 : RS.re[ci * k + cj], wi = ci < 0 ? RT.im[F(i, j)] : cj < 0 ? 0 : RS.im[ci * k + cj];
                sx_thr(G.re[F(i, j)], G.im[F(i, j)], wr, wi, ci < 0 ? 0 : thr, 1, ci < 0 ? "assembling a submatrix changed a row that is not a core row" : "assembled core row differs from the submatrix", i, j);
            }
        }
        chkm(S, &RS, 0, "assembly changed the submatrix"); bml_deallocate(&S); bml_deallocate(&T);
    }
    bml_deallocate(&A);
}
static int member(const int *a, int n, int v) { for (int i = 0; i < n; i++) if (a[i] == v) return 1; return 0; }
/* C20: core-halo lists */
void h_C20(void)
{
    setup(); int how = sx_param("how", 0), dj = sx_param("dj", 0), x[MX], k = list(x, sx_param("len", 2), 1); dm RA, RB; symA(&RA, "A"); symA(&RB, "B"); bml_matrix_t *A = mkA(&RA), *B = mk(&RB, FMT, PREC, sx_param("M", N), sx_param("build", 0));
    int ch[MX], vs[2] = { -1, -1 }; for (int i = 0; i < MX; i++) ch[i] = -7;
    if (how == 0) bml_matrix2submatrix_index(A, B, x, k, ch, vs, dj); else bml_matrix2submatrix_index_graph(B, x, k, ch, vs, dj);
    /* the distinct nodes given */
    int core[MX], nc = 0, in[MX]; for (int i = 0; i < k; i++) if (!member(core, nc, x[i])) core[nc++] = x[i];
    for (int i = 0; i < N; i++) in[i] = member(core, nc, i);
    for (int c = 0; c < nc; c++) for (int j = 0; j < N; j++) if (nz(&RB, F(core[c], j)) || (how == 0 && nz(&RA, F(core[c], j)))) in[j] = 1;
    if (dj) { int in2[MX]; for (int i = 0; i < N; i++) in2[i] = in[i]; for (int i = 0; i < N; i++) if (in[i]) for (int j = 0; j < N; j++) if (nz(&RB, F(i, j))) in2[j] = 1; for (int i = 0; i < N; i++) in[i] = in2[i]; }
    int tot = 0; for (int i = 0; i < N; i++) tot += in[i];
    sx_assert(vs[1] == nc, "number of core nodes", vs[1], nc); sx_assert(vs[0] == tot, "number of core and halo nodes", vs[0], tot);
    for (int i = 0; i < tot && i < vs[0]; i++)
    {
        if (i < nc) sx_assert(ch[i] == core[i], "the given nodes do not come first, in order", i, ch[i]);
        sx_assert(ch[i] >= 0 && ch[i] < N && in[ch[i] >= 0 && ch[i] < N ? ch[i] : 0], "a listed node is not reachable", i, ch[i]); sx_assert(!member(ch, i, ch[i]), "a node is listed twice", i, ch[i]);
    }
    for (int i = tot; i < MX; i++) sx_assert(ch[i] == -7, "written past the end of the list", i, ch[i]);
    chkm(A, &RA, 0, "a graph query changed its matrix"); chkm(B, &RB, 0, "a graph query changed its matrix"); bml_deallocate(&A); bml_deallocate(&B);
}
/* C20: adjacency lists */
void h_C20adj(void)
{
    setup(); int group = sx_param("group", 0), base = sx_param("base", 0), h[MX], n = N; dm RA; symA(&RA, "A"); bml_matrix_t *A = mkA(&RA); int xa[MX + 1], ad[MX * MX + 1];
    for (int i = 0; i <= MX; i++) xa[i] = -7;
    for (int i = 0; i <= N * N; i++) ad[i] = -7;
    if (group) { n = list(h, sx_param("len", 2), 0); if (!n) return; int h1[MX]; for (int i = 0; i < n; i++) h1[i] = h[i] + 1; bml_adjacency_group(A, h1, n, xa, ad, base); for (int i = 0; i < n; i++) sx_assert(h1[i] == h[i] + 1, "the node list was changed", i, h1[i]); }
    else bml_adjacency(A, xa, ad, base);
    int p = 0;
    sx_assert(xa[0] == base, "first row offset", xa[0], base);
    for (int i = 0; i < n; i++)
    {
        for (int j = 0; j < n; j++) if (group ? nz(&RA, F(h[i], h[j])) : j != i && nz(&RA, F(i, j))) { sx_assert(ad[p] == j + base, "adjacency list entry is not the next neighbour", p, ad[p]); p++; }
        sx_assert(xa[i + 1] == p + base, "row offset differs from the number of neighbours", i, xa[i + 1]);
    }
    sx_assert(ad[p] == -7 && xa[n + 1] == -7, "written past the end of the adjacency structure", p, ad[p]);
    chkm(A, &RA, 0, "a graph query changed its matrix"); bml_deallocate(&A);
}
/* C20: groups. gs: group sizes as decimal digits */
void h_C20grp(void)
{
    setup(); int g = sx_param("gs", 12), gs[8], t[8], ng = 0, h[8], who[MX]; while (g) { t[ng++] = g % 10; g /= 10; } for (int i = 0; i < ng; i++) gs[i] = t[ng - 1 - i];
    for (int i = 0, p = 0; i < ng; i++) { h[i] = p + 1; for (int j = 0; j < gs[i]; j++) who[p++] = i; }
    dm RA; symA(&RA, "A"); double thr = thrparam(); bml_matrix_t *A = mkA(&RA), *G = bml_group_matrix(A, h, ng, thr); dm W; zerod(&W, ng);
    for (int i = 0; i < ng; i++) W.re[i * ng + i] = 1;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) if (who[i] != who[j] && above(&RA, F(i, j), thr)) W.re[who[i] * ng + who[j]] = W.re[who[j] * ng + who[i]] = 1;
    sx_assert(bml_get_N(G) == ng, "number of groups", bml_get_N(G), ng); wf(G, "malformed group matrix"); chkm(G, &W, 0, "group matrix does not link exactly the groups with an entry above the threshold between them");
    chkm(A, &RA, 0, "building the group matrix changed its source"); bml_deallocate(&A); bml_deallocate(&G);
}

/* C25: default domain for any size and capacity; the number of ranks is the number of processes of the run */
void h_C25(void)
{
    setup(); int R = bml_getNRanks(), mode = sx_param("mode", 0) ? distributed : sequential, n = sx_int("n", 1, 40000), m = sx_int("m", 1, 40000);
    if (mode == distributed && sx_param("tiny", 0)) sx_assume(n < R); else if (mode == distributed && sx_param("tiny", 0) == 0) sx_assume(n >= 1);
    sx_assert(R == sx_param("procs", 1), "number of ranks", R, 0);
    bml_domain_t *d = bml_default_domain(n, m, mode);
    sx_assert(d->totalProcs == R, "totalProcs", 0, 0); sx_assert(d->totalRows == n, "totalRows", 0, 0); sx_assert(d->totalCols == m, "totalCols", 0, 0);
    sx_assert(d->globalRowMin == 0, "globalRowMin", 0, 0); sx_assert(d->globalRowMax == n, "globalRowMax", 0, 0); sx_assert(d->globalRowExtent == n, "globalRowExtent", 0, 0);
    int at = 0, mx = -1, mn = 1 << 30, dis = 0;
    for (int i = 0; i < R; i++)
    {
        int lo = d->localRowMin[i], hi = d->localRowMax[i], ex = d->localRowExtent[i];
        if (mode == sequential) { sx_assert(lo == 0, "a rank of a sequential matrix does not hold every row", i, 0); sx_assert(hi == n, "a rank of a sequential matrix does not hold every row", i, 1); sx_assert(d->localDispl[i] == 0, "displacement of a sequential matrix", i, 0); }
        else { sx_assert(lo == at, "partition leaves a gap or an overlap between ranks", i, 0); sx_assert(hi >= lo, "negative partition", i, 0); sx_assert(ex - n / R <= 1 && ex - n / R >= 0, "partition is not balanced", i, 0); sx_assert(d->localDispl[i] == dis, "displacement of a rank differs from the number of elements before it", i, 0); }
        sx_assert(ex == hi - lo, "extent of a rank", i, 0); sx_assert(d->localElements[i] == ex * m, "number of elements of a rank", i, 0);
        at = hi; if (mode != sequential) dis += ex * m; if (ex > mx) mx = ex; if (ex < mn) mn = ex;
    }
    sx_assert(at == n, "partition does not end at the last row", 0, 0);
    sx_assert(d->maxLocalExtent == mx, "largest extent", 0, 0); sx_assert(d->minLocalExtent == mn, "smallest extent", 0, 0);
    bml_deallocate_domain(d);
}
static bml_domain_t *dom(bml_matrix_t *A) { switch (FMT) { case dense: return ((bml_matrix_dense_t *) A)->domain; case ellpack: return ((bml_matrix_ellpack_t *) A)->domain; default: return ((bml_matrix_csr_t *) A)->domain; } }
typedef struct { int v[32]; } dsnap;
static void snap(bml_matrix_t *A, dsnap *s, int R) { bml_domain_t *d = dom(A); int k = 0; s->v[k++] = d->totalProcs; s->v[k++] = d->totalRows; s->v[k++] = d->totalCols; s->v[k++] = d->globalRowMin; s->v[k++] = d->globalRowMax; s->v[k++] = d->globalRowExtent; s->v[k++] = d->maxLocalExtent; s->v[k++] = d->minLocalExtent; for (int i = 0; i < R; i++) { s->v[k++] = d->localRowMin[i]; s->v[k++] = d->localRowMax[i]; s->v[k++] = d->localRowExtent[i]; s->v[k++] = d->localElements[i]; s->v[k++] = d->localDispl[i]; } }
static void same(const dsnap *a, const dsnap *b, int R, const char *msg) { for (int k = 0; k < 8 + 5 * R; k++) sx_assert(a->v[k] == b->v[k], msg, k, 0); }
/* C25: a user-supplied partition (parts of any sizes, any number per rank), saved, replaced and restored */
void h_C25upd(void)
{
    setup(); int R = bml_getNRanks(), np[4], mn[4], mx[4], nn[12], mode = sx_param("mode", 0) ? distributed : sequential, np_max = sx_param("parts", 2), tot = 0, p = 0; dsnap s0, s1, s2;
    bml_matrix_t *A = bml_zero_matrix(FMT, PREC, N, N, mode); snap(A, &s0, R); bml_save_domain(A);
    if (FMT != csr)
    {
        for (int r = 0; r < R; r++) { np[r] = 1 + sx_choice("np", np_max); mn[r] = p + 1; mx[r] = p + np[r]; for (int i = 0; i < np[r]; i++) nn[p++] = sx_int("nodes", 0, 100); }
        bml_update_domain(A, mn, mx, nn); bml_domain_t *d = dom(A); int at = 0, big = -1, small = 1 << 30;
        for (int r = 0, q = 0; r < R; r++)
        {
            int ex = 0; for (int i = 0; i < np[r]; i++) ex += nn[q++];
            sx_assert(d->localRowMin[r] == at, "rank does not start where the previous one ends", r, 0); sx_assert(d->localRowMax[r] == at + ex, "rank does not hold exactly its parts", r, 0); sx_assert(d->localRowExtent[r] == ex, "extent of a rank", r, 0);
            sx_assert(d->localElements[r] == ex * d->totalCols, "elements of a rank", r, 0); sx_assert(d->localDispl[r] == at * d->totalCols, "displacement of a rank", r, 0); at += ex; if (ex > big) big = ex; if (ex < small) small = ex;
        }
        sx_assert(d->maxLocalExtent == big, "largest extent", 0, 0); sx_assert(d->minLocalExtent == small, "smallest extent", 0, 0);
        sx_assert(d->totalRows == N && d->globalRowMin == 0 && d->globalRowMax == N && d->globalRowExtent == N, "partition changed the global size", 0, 0);
    }
    else { bml_domain_t *d = dom(A); for (int r = 0; r < R; r++) { d->localRowMin[r] = sx_int("x", 0, 9); d->localRowMax[r] = sx_int("x", 0, 9); d->localRowExtent[r] = sx_int("x", 0, 9); d->localElements[r] = sx_int("x", 0, 9); d->localDispl[r] = sx_int("x", 0, 9); } d->maxLocalExtent = sx_int("x", 0, 9); d->minLocalExtent = sx_int("x", 0, 9); }
    snap(A, &s1, R);
    bml_restore_domain(A); snap(A, &s2, R); same(&s2, &s0, R, "restoring does not give the saved domain back");
    /* copies carry the domain, and have their own */
    if (FMT != csr) { bml_update_domain(A, mn, mx, nn); bml_matrix_t *B = bml_copy_new(A); snap(B, &s2, R); same(&s2, &s1, R, "the domain of a copy differs"); bml_restore_domain(A); snap(B, &s2, R); same(&s2, &s1, R, "restoring the original changed the copy"); bml_deallocate(&B); }
    (void) tot; bml_deallocate(&A);
}
/* C26: write, then read into any matrix of that size */
void h_C26(void)
{
    setup(); dm RA; symA(&RA, "A"); bml_matrix_t *A = mkA(&RA), *T = stale("T"); const char *f = "c26.mtx"; char h[5][32]; int n1 = -1, n2 = -1, cnt = -1;
    bml_write_bml_matrix(A, (char *) f); chkm(A, &RA, 0, "writing changed the matrix");
    FILE *fp = fopen(f, "r"); sx_assert(fp != 0, "no file was written", 0, 0);
    int k = fscanf(fp, "%s %s %s %s %s", h[0], h[1], h[2], h[3], h[4]); sx_assert(k == 5, "header of the file", k, 5);
    sx_assert(!strcmp(h[1], "matrix") && !strcmp(h[2], "coordinate") && !strcmp(h[3], CX ? "complex" : "real") && !strcmp(h[4], "general"), "header of the file", 0, 0);
    k = fscanf(fp, "%d %d %d", &n1, &n2, &cnt); sx_assert(k == 3 && n1 == N && n2 == N, "size in the file", n1, N);
    dm G; zerod(&G, N); int got = 0;
    for (;;)
    {
        int i, j; double re, im = 0; k = CX ? fscanf(fp, "%d %d %lf %lf\n", &i, &j, &re, &im) : fscanf(fp, "%d %d %lf\n", &i, &j, &re); if (k != (CX ? 4 : 3)) break;
        got++; sx_assert(i >= 1 && i <= N && j >= 1 && j <= N, "entry of the file outside the matrix", i, j); if (i < 1 || i > N || j < 1 || j > N) break; int q = F(i - 1, j - 1); G.re[q] += re; G.im[q] += im; if (got > N * N) break;
    }
    fclose(fp); sx_assert(got == cnt, "number of entries in the file differs from the header", got, cnt); chk(&G, &RA, 0, "entries in the file differ from the matrix");
    bml_read_bml_matrix(T, (char *) f); wf(T, "malformed storage after reading"); chkm(T, &RA, 0, "matrix read back differs from the one written");
    if (sx_param("again", 0)) { bml_read_bml_matrix(A, (char *) f); wf(A, "malformed storage after reading"); chkm(A, &RA, 0, "matrix read into itself differs from the one written"); }
    bml_deallocate(&A); bml_deallocate(&T); sx_assert(sx_file_open_count() == 0, "a file is left open", 0, 0); remove(f);
}
/* C26: a file from elsewhere: entries in any order, general or symmetric */
void h_C26ext(void)
{
    setup(); int sym = sx_param("sym", 0), ne = sx_param("ne", 2), pi[16], pj[16]; dm R; zerod(&R, N); bml_matrix_t *T = stale("T"); FILE *fp = fopen("c26x.mtx", "w");
    fprintf(fp, "%%%%MatrixMarket matrix coordinate %s %s\n", CX ? "complex" : "real", sym ? "symmetric" : "general"); fprintf(fp, "%d %d %d\n", N, N, ne);
    for (int e = 0; e < ne; e++)
    {
        int i = sx_choice("i", N), j = sym ? sx_choice("j", i + 1) : sx_choice("j", N); for (int q = 0; q < e; q++) sx_assume(pi[q] != i || pj[q] != j); pi[e] = i; pj[e] = j;
        double re = sx_real("v", POS), im = CX ? sx_real("v", ANY) : 0; R.re[F(i, j)] = re; R.im[F(i, j)] = im; if (sym) { R.re[F(j, i)] = re; R.im[F(j, i)] = im; }
        if (CX) fprintf(fp, "%d %d %20.15e %20.15e\n", i + 1, j + 1, re, im); else fprintf(fp, "%d %d %20.15e\n", i + 1, j + 1, re);
    }
    fclose(fp); bml_read_bml_matrix(T, "c26x.mtx"); wf(T, "malformed storage after reading"); chkm(T, &R, 0, "matrix read differs from the file"); bml_deallocate(&T); remove("c26x.mtx");
}
/* C29 */
void h_C29(void)
{
    setup(); int o[MX + 1], nb = offs(o), pm[MX], inv[MX]; dm R, W; symA(&R, "A"); bml_matrix_t *A = mkA(&R), *K = bml_copy_new(A);
    for (int i = 0; i < nb; i++) { pm[i] = sx_choice("perm", nb); for (int j = 0; j < i; j++) if (pm[j] == pm[i]) return; inv[pm[i]] = i; }
    int arg[MX]; for (int i = 0; i < nb; i++) arg[i] = pm[i];
    /* element permutation: for ellblock the permutation is of the blocks */
    int ep[MX], no[MX + 1]; no[0] = 0; for (int b = 0; b < nb; b++) no[b + 1] = no[b] + o[inv[b] + 1] - o[inv[b]];
    for (int b = 0; b < nb; b++) for (int i = o[b]; i < o[b + 1]; i++) ep[i] = no[pm[b]] + i - o[b];
    bml_reorder(A, arg); for (int i = 0; i < nb; i++) sx_assert(arg[i] == pm[i], "the permutation was changed", i, arg[i]);
    W.N = N; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { W.re[F(ep[i], ep[j])] = R.re[F(i, j)]; W.im[F(ep[i], ep[j])] = R.im[F(i, j)]; }
    wf(A, "malformed storage after reordering"); chkm(A, &W, 0, "reordered matrix differs from the permuted one"); chkm(K, &R, 0, "reordering changed another matrix");
    bml_reorder(A, inv); wf(A, "malformed storage after reordering"); chkm(A, &R, 0, "the inverse permutation does not restore the matrix"); bml_deallocate(&A); bml_deallocate(&K);
}
#include "lapack_stub.h"
/* C27: any eigen-solver */
void h_C27(void)
{
    setup(); dm R; R.N = N; for (int i = 0; i < N; i++) for (int j = 0; j <= i; j++) { int z = sx_param("pAz", 0) >> (i * N + j) & 1; double re = z ? 0 : sx_real("A", sx_param("pos", 0) ? POS : ANY), im = z || i == j || !CX ? 0 : sx_real("A", POS); R.re[F(i, j)] = R.re[F(j, i)] = re; R.im[F(i, j)] = im; R.im[F(j, i)] = -im; }
    bml_matrix_t *A = mkA(&R), *Q = stale("Q"); char ev[16 * MX]; for (int i = 0; i < N; i++) put(ev, i, PREC, 77, 77); lp_called = 0;
    bml_diagonalize(A, ev, Q);
    sx_assert(lp_called == 1 && lp_n == N, "the eigen-solver was not called once on a matrix of that size", lp_called, lp_n);
    int cj = 0; if (CX) for (int i = 0; i < N; i++) for (int j = 0; j < i; j++) if (sx_known(R.im[F(i, j)], POS)) cj = sx_known(lp_mi[i + j * N], NEG);
    dm G; rd(Q, &G); obsm("q", &G);
    for (int j = 0; j < N; j++)
    {
        sx_eq(getre(ev, j, PREC), lp_w[j], "eigenvalue is not the one the solver returned", j, 0); if (CX) sx_eq(getim(ev, j, PREC), 0, "eigenvalue is not real", j, 0);
        for (int i = 0; i < N; i++)
        {
            sx_eq(lp_mr[i + j * N], R.re[F(i, j)], "the eigen-solver was handed a different matrix", i, j); if (CX) sx_eq(lp_mi[i + j * N], cj ? -R.im[F(i, j)] : R.im[F(i, j)], "the eigen-solver was handed a different matrix", i, j);
            sx_eq(G.re[F(i, j)], lp_vr[i + j * N], "column k is not the k-th eigenvector", i, j); if (CX) sx_eq(G.im[F(i, j)], cj ? -lp_vi[i + j * N] : lp_vi[i + j * N], "column k is not the k-th eigenvector (of the matrix, not of its conjugate)", i, j);
        }
    }
    wf(Q, "malformed eigenvector matrix"); chkm(A, &R, 0, "diagonalisation changed its input"); bml_deallocate(&A); bml_deallocate(&Q);
}
/* C28: any factorisation and inversion */
void h_C28(void)
{
    setup(); dm R; symA(&R, "A"); bml_matrix_t *A = mkA(&R); lp_called = 0; bml_matrix_t *B = bml_inverse(A);
    sx_assert(lp_called == 1 && lp_n == N, "the factorisation was not called once on a matrix of that size", lp_called, lp_n);
    sx_assert(bml_get_N(B) == N && bml_get_type(B) == FMT && bml_get_precision(B) == PREC, "inverse has another shape", bml_get_N(B), N);
    /* the routine sees L and returns inv(L): if L is A, B must be inv(L); if L is the transpose of A, B must be the transpose of inv(L) */
    dm G; rd(B, &G); obsm("b", &G); int tr = sx_param("tr", 1);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++)
    {
        int k = tr ? j + i * N : i + j * N;
        sx_eq(lp_mr[k], R.re[F(i, j)], "the factorisation was handed a different matrix", i, j); if (CX) sx_eq(lp_mi[k], R.im[F(i, j)], "the factorisation was handed a different matrix", i, j);
        sx_eq(G.re[F(i, j)], lp_vr[k], "the result is not the inverse the routine returned", i, j); if (CX) sx_eq(G.im[F(i, j)], lp_vi[k], "the result is not the inverse the routine returned", i, j);
    }
    wf(B, "malformed inverse"); chkm(A, &R, 0, "inversion changed its input"); bml_deallocate(&A); bml_deallocate(&B);
}
/* C32 */
#define GPROTO(T,S) extern void bml_gemm_internal_##S(const char *, const char *, const int *, const int *, const int *, const T *, const T *, const int *, const T *, const int *, const T *, T *, const int *);
GPROTO(float, single_real) GPROTO(double, double_real) GPROTO(float complex, single_complex) GPROTO(double complex, double_complex)
void h_C32(void)
{
    setup(); int m = sx_param("m", 2), n = sx_param("n", 2), k = sx_param("k", 2), ta = sx_param("ta", 0), tb = sx_param("tb", 0), pad = sx_param("pad", 0); const char *tf = "NTC"; char ca = tf[ta], cb = tf[tb];
    int ra = ta ? k : m, cA = ta ? m : k, rb = tb ? n : k, cB = tb ? k : n, lda = (ra > 1 ? ra : 1) + pad, ldb = (rb > 1 ? rb : 1) + (pad ? pad + 1 : 0), ldc = (m > 1 ? m : 1) + pad; size_t e = esz(PREC);
    int na = lda * (cA ? cA : 1), nb = ldb * (cB ? cB : 1), nc = ldc * (n ? n : 1); double ar[64], ai[64], br[64], bi[64], cr[64], ci[64];
    char *a = malloc(na * e), *b = malloc(nb * e), *c = malloc(nc * e), al[16], be[16];
    for (int i = 0; i < na; i++) { int in = i % lda < ra && i / lda < cA; ar[i] = sx_real("a", ANY); ai[i] = CX ? sx_real("a", ANY) : 0; if (in) put(a, i, PREC, ar[i], ai[i]); }
    for (int i = 0; i < nb; i++) { int in = i % ldb < rb && i / ldb < cB; br[i] = sx_real("b", ANY); bi[i] = CX ? sx_real("b", ANY) : 0; if (in) put(b, i, PREC, br[i], bi[i]); }
    int kb = sx_param("be", 0); /* beta: 0 any, 1 zero (C may be uninitialised), 2 one, 3 non-zero */
    for (int i = 0; i < nc; i++) { int in = i % ldc < m && i / ldc < n; cr[i] = sx_real("c", ANY); ci[i] = CX ? sx_real("c", ANY) : 0; if (!in || kb != 1) put(c, i, PREC, cr[i], ci[i]); }
    double alr = sx_param("al", 0) == 1 ? 0 : sx_param("al", 0) == 2 ? 1 : sx_real("al", ANY), ali = CX && sx_param("al", 0) == 0 ? sx_real("al", ANY) : 0, ber = kb == 1 ? 0 : kb == 2 ? 1 : sx_real("be", ANY), bei = CX && kb == 0 ? sx_real("be", ANY) : 0;
    put(al, 0, PREC, alr, ali); put(be, 0, PREC, ber, bei);
    switch (PREC) {
    case single_real: bml_gemm_internal_single_real(&ca, &cb, &m, &n, &k, (float *) al, (float *) a, &lda, (float *) b, &ldb, (float *) be, (float *) c, &ldc); break;
    case double_real: bml_gemm_internal_double_real(&ca, &cb, &m, &n, &k, (double *) al, (double *) a, &lda, (double *) b, &ldb, (double *) be, (double *) c, &ldc); break;
    case single_complex: bml_gemm_internal_single_complex(&ca, &cb, &m, &n, &k, (float complex *) al, (float complex *) a, &lda, (float complex *) b, &ldb, (float complex *) be, (float complex *) c, &ldc); break;
    default: bml_gemm_internal_double_complex(&ca, &cb, &m, &n, &k, (double complex *) al, (double complex *) a, &lda, (double complex *) b, &ldb, (double complex *) be, (double complex *) c, &ldc); break; }
    for (int j = 0; j * ldc < nc; j++) for (int i = 0; i < ldc; i++)
    {
        int q = i + j * ldc; double wr = cr[q], wi = ci[q];
        if (i < m && j < n)
        {
            double sr = 0, si = 0; for (int l = 0; l < k; l++) { int x = ta ? l + i * lda : i + l * lda, y = tb ? j + l * ldb : l + j * ldb; mulacc(ar[x], ta == 2 ? -ai[x] : ai[x], br[y], tb == 2 ? -bi[y] : bi[y], &sr, &si); }
            double pr, pi, qr = 0, qi = 0; mulz(alr, ali, sr, si, &pr, &pi); if (kb != 1) mulz(ber, bei, cr[q], ci[q], &qr, &qi); wr = pr + qr; wi = pi + qi;
        }
        sx_eq(getre(c, q, PREC), wr, i < m && j < n ? "gemm result" : "gemm wrote outside the m-by-n block", i, j); if (CX) sx_eq(getim(c, q, PREC), wi, i < m && j < n ? "gemm result" : "gemm wrote outside the m-by-n block", i, j); sx_observe("c", getre(c, q, PREC));
    }
    free(a); free(b); free(c);
}
/* C35 */
void h_C35(void)
{
    setup(); int how = sx_param("how", 0);
    if (how == 0) { int x = sx_int("x", sx_param("lo", 0), sx_param("hi", 400)), r = bml_sqrtint(x); long long q = r; sx_assert(r >= 1, "integer square root not positive", r, 0); sx_assert(q * q >= x, "integer square root too small", r, 0); sx_assert(r == 1 || (q - 1) * (q - 1) < x, "integer square root too large", r, 0); }
    if (how == 1) { int n = 1 + sx_choice("size", sx_param("max", 64)); unsigned char *p = bml_allocate_memory(n); sx_assert(sx_addr_ok(p, n), "allocation smaller than requested", n, 0); for (int i = 0; i < n; i++) { sx_assert(p[i] == 0, "allocated memory is not zero", i, p[i]); p[i] = 3; } bml_free_memory(p); }
    if (how == 4) /* a request the address space cannot hold is refused */
    {
        static const size_t big[4] = { ((size_t) 1 << 47) + 64, ((size_t) 1 << 62) + 4096, ((size_t) 1 << 63) - 1, (size_t) -64 };
        size_t n = big[sx_choice("size", 4)]; int f = sx_choice("fn", 3); void *p = f == 2 ? bml_noinit_allocate_memory(8) : NULL;
        sx_allow_exit(1); p = f == 0 ? bml_allocate_memory(n) : f == 1 ? bml_noinit_allocate_memory(n) : bml_reallocate_memory(p, n); sx_allow_exit(0);
        sx_assert(0, "an allocation that cannot succeed returns", f, 0);
    }
    if (how == 2) { int n = 1 + sx_choice("size", sx_param("max", 64)); unsigned char *p = bml_noinit_allocate_memory(n); sx_assert(sx_addr_ok(p, n), "allocation smaller than requested", n, 0); for (int i = 0; i < n; i++) p[i] = (unsigned char) (i * 7); void *v = p; 
        int n2 = 1 + sx_choice("size2", sx_param("max", 64)); unsigned char *q = bml_reallocate_memory(p, n2); sx_assert(sx_addr_ok(q, n2), "reallocation smaller than requested", n2, 0); for (int i = 0; i < n && i < n2; i++) sx_assert(q[i] == (unsigned char) (i * 7), "reallocation lost the old contents", i, q[i]); for (int i = 0; i < n2; i++) q[i] = 1; v = q; bml_free_ptr(&v); }
}
