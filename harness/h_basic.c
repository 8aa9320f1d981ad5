#include "lib.h"
/* C01 */
void h_C01(void)
{
    setup(); dm A; symA(&A, "A"); double thr = thrparam(); int M = sx_param("M", N), oi = sx_param("oi", 0), oe = sx_param("oe", 0);
    void *buf = malloc(N * N * esz(PREC));
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) put(buf, oi ? j * N + i : i * N + j, PREC, A.re[i * N + j], A.im[i * N + j]);
    bml_matrix_t *B = bml_import_from_dense(FMT, PREC, oi ? dense_column_major : dense_row_major, N, M, buf, thr, sequential);
    /* the caller's array is untouched */
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int k = oi ? j * N + i : i * N + j; sx_eq(getre(buf, k, PREC), A.re[i * N + j], "import changed the caller's array", i, j); if (CX) sx_eq(getim(buf, k, PREC), A.im[i * N + j], "import changed the caller's array", i, j); }
    free(buf); wf(B, "malformed storage after import");
    void *b = bml_export_to_dense(B, oe ? dense_column_major : dense_row_major); dm G; G.N = N;
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { int k = oe ? j * N + i : i * N + j; G.re[i * N + j] = getre(b, k, PREC); G.im[i * N + j] = getim(b, k, PREC); }
    chk(&G, &A, thr, "export differs from the imported array"); obsm("o", &G);
    bml_free_memory(b);
    for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { void *e = bml_get_element(B, i, j); sx_thr(getre(e, 0, PREC), getim(e, 0, PREC), A.re[i * N + j], A.im[i * N + j], thr, 1, "element differs from the imported array", i, j);  }
    bml_deallocate(&B);
}
