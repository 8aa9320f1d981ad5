/* Native implementation of the harness interface: replays one concrete input set against the real, natively compiled library.
   usage: replay ENTRY FILE ; FILE lines: "P name val" job parameter, "R name val", "I name val", "C name val", "O name val" expected observation */
#define _GNU_SOURCE
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <dlfcn.h>
#if SX_MPI
#include <mpi.h>
static int mpi_live;
int MPI_Comm_split(MPI_Comm c, int k, int o, MPI_Comm *n) { int r = PMPI_Comm_split(c, k, o, n); if (*n != MPI_COMM_NULL) mpi_live++; return r; }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) { mpi_live++; return PMPI_Comm_dup(c, n); }
int MPI_Cart_create(MPI_Comm c, int k, const int *d, const int *p, int o, MPI_Comm *n) { int r = PMPI_Cart_create(c, k, d, p, o, n); if (*n != MPI_COMM_NULL) mpi_live++; return r; }
int MPI_Comm_free(MPI_Comm *c) { mpi_live--; return PMPI_Comm_free(c); }
int MPI_Type_create_struct(int n, const int *b, const MPI_Aint *d, const MPI_Datatype *t, MPI_Datatype *o) { mpi_live++; return PMPI_Type_create_struct(n, b, d, t, o); }
int MPI_Type_free(MPI_Datatype *t) { mpi_live--; return PMPI_Type_free(t); }
int sx_mpi_live(void) { return mpi_live; }
#else
int sx_mpi_live(void) { return 0; }
#endif
typedef struct { char t; char name[64]; double v; } ent;
static ent *E; static int nE; static struct { char n[64]; int k; } cnt[256]; static int nC;
static int fails, allow, expectExit; static double TOL = 1e-9;
static ent *look(char t, const char *n) { for (int i = 0; i < nE; i++) if (E[i].t == t && !strcmp(E[i].name, n)) return &E[i]; return 0; }
static void full(const char *n, char *out) { int i; for (i = 0; i < nC; i++) if (!strcmp(cnt[i].n, n)) break; if (i == nC) { strcpy(cnt[i].n, n); cnt[i].k = 0; nC++; } sprintf(out, "%s.%d", n, cnt[i].k++); }
double sx_real(const char *n, int m) { char f[96]; full(n, f); ent *e = look('R', f); double v = e ? e->v : (m & 2 ? 0 : m & 4 ? 1 : -1); return v; }
int sx_int(const char *n, int lo, int hi) { char f[96]; full(n, f); ent *e = look('I', f); return e ? (int) e->v : lo; }
int sx_choice(const char *n, int k) { char f[96]; full(n, f); ent *e = look('C', f); return e ? (int) e->v : 0; }
int sx_param(const char *n, int d) { ent *e = look('P', n); return e ? (int) e->v : d; }
int rand(void) { char f[96]; full("rand", f); ent *e = look('J', f); if (!e) e = look('R', f); return e ? (int) e->v : 12345; }
static void fail(const char *kind, const char *msg, int i, int j) { fails++; printf("SXFAIL %s|%s|%d,%d\n", kind, msg, i, j); fflush(stdout); }
void sx_assume(int c) { if (!c) { printf("SXASSUME\n"); exit(5); } }
void sx_assume_sign(double v, int m) { int s = v < 0 ? 1 : v > 0 ? 4 : 2; sx_assume(s & m); }
void sx_assert(int c, const char *msg, int i, int j) { if (!c) fail("assert", msg, i, j); }
static int close_(double a, double b) { return fabs(a - b) <= TOL * (1 + fabs(b)) || a == b; }
/* the assertion the solver refuted (SX_STRICT) is compared relative to its own magnitude: the counterexample may need tiny values */
static int strict(const char *msg, double a, double b) { const char *s = getenv("SX_STRICT"); return s && !strcmp(s, msg) && fabs(a - b) > 1e-3 * fmax(fabs(a), fabs(b)); }
void sx_eq(double g, double w, const char *msg, int i, int j) { if (!close_(g, w) || strict(msg, g, w)) { printf("got %.17g want %.17g\n", g, w); fail("assert", msg, i, j); } }
void sx_thr(double gr, double gi, double wr, double wi, double thr, int c, const char *msg, int i, int j)
{
    if (!c) gi = wi = 0;
    if (close_(gr, wr) && close_(gi, wi) && !strict(msg, gr, wr) && !strict(msg, gi, wi)) return;
    if (gr == 0 && gi == 0 && sqrt(wr * wr + wi * wi) <= thr * (1 + TOL) + TOL*0) return;
    printf("got %.17g %.17g want %.17g %.17g thr %.17g\n", gr, gi, wr, wi, thr); fail("assert", msg, i, j);
}
void sx_sign(double v, int m, const char *msg, int i, int j) { int s = v < -TOL ? 1 : v > TOL ? 4 : 7; if (!(s & m)) { printf("value %.17g\n", v); fail("assert", msg, i, j); } }
int sx_known(double v, int m) { int s = v < 0 ? 1 : v > 0 ? 4 : 2; return (s & m) != 0; }
void sx_cover(const char *w) { (void) w; }
static int nobs, badobs;
void sx_observe(const char *n, double v) { char f[96]; full(n, f); ent *e = look('O', f); printf("SXOBS %s %.17g\n", f, v); if (e) { nobs++; double tol = TOL * 10; if (fabs(e->v - v) > tol * (1 + fabs(e->v))) { badobs++; printf("SXOBSDIFF %s engine %.17g native %.17g\n", f, e->v, v); } } }
int sx_native(void) { return 1; }
void sx_allow_exit(int y) { allow = y; }
int sx_heap_mark(void) { return 0; }
int sx_heap_live(void) { return 0; }
extern void __lsan_do_leak_check(void) __attribute__((weak));
extern int __lsan_do_recoverable_leak_check(void) __attribute__((weak));
static int leaks;
void sx_check_leaks(int m) { (void) m; if (__lsan_do_recoverable_leak_check && __lsan_do_recoverable_leak_check()) { fail("leak", "memory allocated by the call is never released", 0, 0); } }
int sx_file_open_count(void) { return 0; }
int sx_addr_ok(const void *p, size_t n) { return p != 0; }
size_t sx_obj_size(const void *p) { return (size_t) -1; }
int sx_defined(const void *p, size_t n) { return 1; }
static int done;
static void atEnd(int st, void *u) { if (!done) { printf(allow && st ? "SXEXIT allowed\n" : "SXEXIT unexpected\n"); fflush(stdout); } }
int main(int argc, char **argv)
{
    FILE *f = fopen(argv[2], "r"); char l[512]; int cap = 0;
    if (!f) return 9;
    while (fgets(l, sizeof l, f)) { char t; char n[64]; double v; if (sscanf(l, "%c %63s %lf", &t, n, &v) != 3) continue; if (nE == cap) { cap = cap * 2 + 64; E = realloc(E, cap * sizeof(ent)); } E[nE].t = t; strcpy(E[nE].name, n); E[nE].v = v; if (t == 'X') expectExit = 1; nE++; }
    fclose(f);
    ent *p = look('P', "prec"); if (!p || p->v == 1 || p->v == 3) TOL = 2e-5;
    void (*fn)(void) = (void (*)(void)) dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 9; }
#if SX_MPI
    MPI_Init(&argc, &argv);
#endif
    on_exit(atEnd, 0);
    fn(); done = 1;
#if SX_MPI
    MPI_Finalize();
#endif
    printf("SXDONE fails=%d obs=%d bad=%d\n", fails, nobs, badobs); fflush(stdout);
    return fails ? 1 : 0;
}
