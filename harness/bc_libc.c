/* libc routines with callbacks, in C so that the executor runs them */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <complex.h>
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *))
{
    char *b = base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--)
        { char t[64]; memcpy(t, b + j * w, w); memcpy(b + j * w, b + (j - 1) * w, w); memcpy(b + (j - 1) * w, t, w); }
}
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int strncmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char) a[i] < (unsigned char) b[i] ? -1 : 1; if (!a[i]) return 0; }
    return 0;
}
char *strcat(char *d, const char *s) { size_t n = strlen(d); strcpy(d + n, s); return d; }
char *strchr(const char *s, int c)
{
    for (;; s++) { if (*s == (char) c) return (char *) s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c)
{
    const char *r = 0;
    for (;; s++) { if (*s == (char) c) r = s; if (!*s) return (char *) r; }
}
char *strstr(const char *s, const char *w)
{
    size_t n = strlen(w);
    for (;; s++) { if (!strncmp(s, w, n)) return (char *) s; if (!*s) return 0; }
}
char *strdup(const char *s) { char *r = malloc(strlen(s) + 1); if (r) strcpy(r, s); return r; }
void *bsearch(const void *key, const void *base, size_t n, size_t w, int (*cmp)(const void *, const void *))
{
    size_t lo = 0, hi = n;
    while (lo < hi) { size_t m = (lo + hi) / 2; int c = cmp(key, (const char *) base + m * w); if (!c) return (char *) base + m * w; if (c < 0) hi = m; else lo = m + 1; }
    return 0;
}
int atoi(const char *s)
{
    int r = 0, g = 1;
    while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
    if (*s == '-') { g = -1; s++; } else if (*s == '+') s++;
    while (*s >= '0' && *s <= '9') r = 10 * r + (*s++ - '0');
    return g * r;
}
long strtol(const char *s, char **e, int base)
{
    long r = 0, g = 1; const char *q = s;
    while (*q == ' ' || (*q >= 9 && *q <= 13)) q++;
    if (*q == '-') { g = -1; q++; } else if (*q == '+') q++;
    if (base == 0) base = 10;
    const char *b = q;
    while (*q >= '0' && *q <= '9' && *q - '0' < base) r = base * r + (*q++ - '0');
    if (e) *e = (char *) (q == b ? s : q);
    return g * r;
}
/* libm beyond the executor's own: exact definitions over the reals */
double floor(double), ceil(double), sqrt(double), fabs(double), unmodelled_pow(double, double);
double copysign(double x, double y) { double a = fabs(x); return y < 0 ? -a : a; }
double fdim(double x, double y) { return x > y ? x - y : 0; }
double fma(double x, double y, double z) { return x * y + z; }
double trunc(double x) { return x < 0 ? ceil(x) : floor(x); }
double round(double x) { return x < 0 ? ceil(x - 0.5) : floor(x + 0.5); }
double rint(double x) { double f = floor(x), r = x - f; if (r < 0.5) return f; if (r > 0.5) return f + 1; return f == 2 * floor(f / 2) ? f : f + 1; }
double nearbyint(double x) { return rint(x); }
long lround(double x) { return (long) round(x); }
double fmod(double x, double y) { return x - trunc(x / y) * y; }
double pow(double x, double y)
{
    if (y == 0.5) return sqrt(x);
    if (y > 64 || y < -64 || y != floor(y)) return unmodelled_pow(x, y);
    int n = y < 0 ? -y : y; double r = 1;
    for (int i = 0; i < n; i++) r *= x;
    return y < 0 ? 1 / r : r;
}
double complex cpow(double complex x, double complex y)
{
    if (cimag(y) != 0 || creal(y) > 64 || creal(y) < 0 || creal(y) != floor(creal(y))) return unmodelled_pow(creal(x), creal(y));
    int n = creal(y); double complex r = 1;
    for (int i = 0; i < n; i++) r *= x;
    return r;
}
float copysignf(float x, float y) { return copysign(x, y); }
float powf(float x, float y) { return pow(x, y); }
float fdimf(float x, float y) { return fdim(x, y); }
float truncf(float x) { return trunc(x); }
float roundf(float x) { return round(x); }
float rintf(float x) { return rint(x); }
float fmodf(float x, float y) { return fmod(x, y); }
