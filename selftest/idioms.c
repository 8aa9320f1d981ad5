#define _XOPEN_SOURCE 700
#include "bml.h"
#include <omp.h>
#include <math.h>
#include <complex.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
#include "lib.h"
typedef struct { double v; int j; } pr;
static int cmp(const void *a, const void *b) { return ((pr *) a)->j - ((pr *) b)->j; }
static inline double sq(double x) { return x * x; }
typedef double (*fn)(double);
union u { double d; uint64_t i; };
void h_idioms(void)
{
    int k = sx_param("k", 0); double x = sx_real("x", 7), y = sx_real("y", 7); double r = 0, e = 0; float f = x;
    switch (k) {
    case 0: r = pow(x, 2); e = x * x; break;
    case 1: r = pow(x, 2.0) + pow(y, 1.0); e = x * x + y; break;
    case 2: r = fmax(x, y) + fmin(x, y); e = x + y; break;
    case 3: { pr p[3] = { { x, 2 }, { y, 0 }, { 1, 1 } }; qsort(p, 3, sizeof(pr), cmp); r = p[0].v; e = y; break; }
    case 4: { fn t[2] = { sq, sqrt }; r = t[0](x); e = x * x; break; }
    case 5: { double s = 0; int n = 4;
#pragma omp parallel for simd reduction(+:s)
        for (int i = 0; i < n; i++) s += x * i;
        r = s; e = 6 * x; break; }
    case 6: { double s = 0; int n = 4;
#pragma omp parallel for collapse(2) schedule(dynamic,1) reduction(+:s)
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) s += x * i + j;
        r = s; e = 24 * x + 24; break; }
    case 7: { double s = 0; int n = 4;
#pragma omp parallel for schedule(guided)
        for (int i = 0; i < n; i++) {
#pragma omp atomic
            s += x * i; }
        r = s; e = 6 * x; break; }
    case 8: { double s = 0; int n = 4;
#pragma omp parallel
        { double l = 0;
#pragma omp for nowait
        for (int i = 0; i < n; i++) l += x * i;
#pragma omp critical
        s += l; }
        r = s; e = 6 * x; break; }
    case 9: { double a = 0, b = 0;
#pragma omp parallel sections
        {
#pragma omp section
            a = x;
#pragma omp section
            b = y;
        }
        r = a + b; e = x + y; break; }
    case 10: { double s = 0;
#pragma omp parallel
#pragma omp single
        s = x;
        r = s; e = x; break; }
    case 11: { double a[4];
#pragma omp parallel for
        for (size_t i = 0; i < 4; i++) a[i] = x * i;
        r = a[3]; e = 3 * x; break; }
    case 12: { double a[4] = { x, y, 1, 2 }; double *p = a, *q = a + 4, s = 0; while (p < q) s += *p++; r = s; e = x + y + 3; break; }
    case 13: { double complex z = x + I * y; r = creal(z * conj(z)); e = x * x + y * y; break; }
    case 14: { double complex z = x + I * y; r = cimag(z * z); e = 2 * x * y; break; }
    case 15: r = copysign(fabs(x), x); e = x; break;
    case 16: r = isnan(x) ? 1 : x; e = x; break;
    case 17: r = isfinite(x) ? x : 1; e = x; break;
    case 18: r = signbit(x) ? -x : x; e = fabs(x); break;
    case 19: { union u w; w.d = x; r = w.i == 0 ? 0 : x; e = x; break; }
    case 20: { char *c = (char *) &x; double z; memcpy(&z, c, 8); r = z; e = x; break; }
    case 21: { double a[2] = { x, y }, b[2]; memmove(b, a, sizeof a); r = b[1]; e = y; break; }
    case 22: { int a[3] = { 1, 2, 3 }, b[3] = { 1, 2, 3 }; r = memcmp(a, b, sizeof a) ? 1 : x; e = x; break; }
    case 23: { double s = 0; for (int i = 3; i--;) s += x; r = s; e = 3 * x; break; }
    case 24: { int n = 3; double a[n]; for (int i = 0; i < n; ++i) a[i] = x; r = a[n - 1]; e = x; break; }
    case 25: { bool b = x > y; r = b ? x : y; e = fmax(x, y); break; }
    case 26: r = x > y && x > 0 ? x : 0; e = (x > y) * (x > 0) * x; break;
    case 27: { int i = 0; lp: if (i < 3) { r += x; i++; goto lp; } e = 3 * x; break; }
    case 28: { static double st; st = x; r = st; e = x; break; }
    case 29: r = round(2.6) * x + lround(1.4) + trunc(1.7) + rint(2.2); e = 3 * x + 4; break;
    case 30: r = fmod(7.0, 4.0) * x; e = 3 * x; break;
    case 31: { double s = 0; int n = 4;
#pragma omp parallel for ordered
        for (int i = 0; i < n; i++) {
#pragma omp ordered
            s += x * i; }
        r = s; e = 6 * x; break; }
    case 32: { double m = 0; double a[3] = { 1, x, 2 };
#pragma omp parallel for reduction(max:m)
        for (int i = 0; i < 3; i++) if (a[i] > m) m = a[i];
        r = m; e = x > 2 ? x : 2; break; }
    case 33: { double s[2] = { 0, 0 };
#pragma omp parallel for reduction(+:s[:2])
        for (int i = 0; i < 4; i++) s[i & 1] += x;
        r = s[0]; e = 2 * x; break; }
    case 34: { int c = __builtin_popcount(7) + __builtin_ctz(8); r = c * x; e = 6 * x; break; }
    case 35: { unsigned u = 5; u <<= 2; u ^= 1; u |= 8; r = (u % 7) * x; e = ((20u ^ 1u | 8u) % 7) * x; break; }
    case 36: { double s = 0;
#pragma omp parallel for lastprivate(r)
        for (int i = 0; i < 4; i++) r = x * i;
        e = 3 * x; break; }
    case 37: { double s = 0;
#pragma omp parallel
#pragma omp single
        for (int i = 0; i < 3; i++)
#pragma omp task shared(s)
        {
#pragma omp atomic
            s += x; }
        r = s; e = 3 * x; break; }
    case 38: { char b[20]; strcpy(b, "ab"); strcat(b, "cd"); r = strncmp(b, "abcx", 3) || !strchr(b, 'd') ? 0 : x; e = x; break; }
    case 39: r = fma(x, y, 1); e = x * y + 1; break;
    case 40: r = fdim(x, y); e = x > y ? x - y : 0; break;
    case 41: r = log(exp(0.)) + x; e = x; break;
    case 42: { double a[2][3] = { { 0 } }; a[1][2] = x; double (*q)[3] = a; r = q[1][2]; e = x; break; }
    case 43: { double *a = calloc(2, sizeof *a); a = realloc(a, 32); a[3] = x; r = a[3] + a[0]; free(a); e = x; break; }
    case 44: { pr p = { .v = x, .j = 1 }, q = p; q.j++; r = q.v * q.j; e = 2 * x; break; }
    case 45: r = cabs(x + I * 0 * y) ; e = fabs(x); break;
    case 46: { double complex z = x + I * y; z = cpow(z, 2); r = creal(z); e = x * x - y * y; break; }
    case 47: { double complex z = (x + I * y) / 2.0; r = cimag(z); e = y / 2; break; }
    case 48: { long n = strtol("12", NULL, 10); r = n * x + atoi("3"); e = 12 * x + 3; break; }
    case 49: { double lo[2]; 
#pragma omp parallel num_threads(2)
        lo[omp_get_thread_num()] = x;
        r = lo[0]; e = x; break; }
    case 50: { char b[9]; sprintf(b, "%d", 12); int q; sscanf(b, "%d", &q); r = q * x; e = 12 * x; break; }
    case 51: r = isless(x, y) ? x : y; e = x < y ? x : y; break;
    case 52: { _Bool fl[4] = { 0 }; fl[2] = 1; int c = 0; for (int i = 0; i < 4; i++) c += fl[i]; r = c * x; e = x; break; }
    case 53: { uint8_t m[4]; memset(m, 1, 4); r = (m[0] & m[3]) * x; e = x; break; }
    case 54: { int s = 0; for (int i = 0; i < 3; i++) for (int j = 0; ; j++) { if (j == 2) break; if (j == 1) continue; s++; } r = s * x; e = 3 * x; break; }
    case 55: { double __attribute__((aligned(64))) a[4]; double *q = __builtin_assume_aligned(a, 64); q[1] = x; r = a[1]; e = x; break; }
    case 56: r = __builtin_expect(x > 0, 1) ? x : -x; e = fabs(x); break;
    case 58: { double t = nearbyint(2.0) ; r = t * x; e = 2 * x; break; }
    case 59: r = hypot(x, 0); e = fabs(x); break;
    }
    sx_eq(r, e, "idiom", 0, 0);
}
