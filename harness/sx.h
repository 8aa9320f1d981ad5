/* Harness interface: implemented by the symbolic executor, or natively (native_sx.c) when a counterexample is replayed. */
#ifndef SX_H
#define SX_H
#include <stddef.h>
#define NEG 1
#define ZERO 2
#define POS 4
#define ANY 7
#define NZ 5
extern double sx_real(const char *name, int signmask);            /* symbolic real with sign in signmask */
extern int sx_int(const char *name, int lo, int hi);              /* symbolic integer */
extern int sx_choice(const char *name, int n);                    /* 0..n-1, one path each */
extern int sx_param(const char *name, int dflt);                  /* job parameter */
extern void sx_assume(int cond);
extern void sx_assume_sign(double v, int mask);
extern void sx_assert(int cond, const char *msg, int i, int j);
extern void sx_eq(double got, double want, const char *msg, int i, int j);
extern void sx_thr(double gr, double gi, double wr, double wi, double thr, int cplx, const char *msg, int i, int j);
extern void sx_sign(double v, int mask, const char *msg, int i, int j);
extern int sx_known(double v, int mask);
extern void sx_cover(const char *what);
extern void sx_observe(const char *name, double v);
extern int sx_native(void);
extern void sx_allow_exit(int yes);
extern int sx_heap_mark(void);
extern int sx_heap_live(void);
extern void sx_check_leaks(int mark);
extern int sx_mpi_live(void); /* communicators and datatypes this rank holds */
extern int sx_file_open_count(void);
extern int sx_addr_ok(const void *p, size_t n);
extern size_t sx_obj_size(const void *p);
extern int sx_defined(const void *p, size_t n);
#endif
