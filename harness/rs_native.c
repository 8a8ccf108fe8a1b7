/* Native replay: the same harness, compiled for the machine, fed with a solver model. */
#ifdef RS_QUAD
#undef double
typedef double rs_dbl;
#define double __float128
#else
typedef double rs_dbl;
#endif
#include "rs.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char kind[65536], used[65536]; static double val[65536]; static int n; static char *name_of[65536];
static char pn[256][64]; static int pv[256]; static int np;
void rs_entry(void);
__attribute__((weak)) void rs_prelude(void);
#ifdef RS_QUAD
#define strtod strtoflt128
#endif
#ifndef RS_TOL
#define RS_TOL 1e-9
#endif
static double num(const char *s) {
  char *e; double a = strtod(s, &e);
  if (*e == '/') return a / strtod(e + 1, 0);
  return a;
}
/* inputs are matched by name, then by order: the order in which a call's arguments are evaluated does not matter */
static double take(char k, const char *name) {
  const char *q = name && *name ? name : "_";
  for (int i = 0; i < n; i++) if (!used[i] && kind[i] == k && !strcmp(name_of[i], q)) { used[i] = 1; return val[i]; }
  printf("REPLAY-DIVERGED input %s\n", name); exit(9);
}
double rs_real(const char *name) { return take('r', name); }
int rs_int(const char *name, int lo, int hi) { (void)lo; (void)hi; return (int)take('i', name); }
int rs_sint(const char *name, int lo, int hi) { (void)lo; (void)hi; return (int)take('i', name); }
int rs_param(const char *name, int d) {
  for (int i = 0; i < np; i++) if (!strcmp(pn[i], name)) return pv[i];
  return d;
}
void rs_assume(int c) { if (!c) { printf("REPLAY-DIVERGED assume\n"); fflush(stdout); exit(9); } }
static void fail(const char *m, double a, double b) {
  printf("REPLAY-VIOLATION %s (got %.17g, expected %.17g)\n", m, (rs_dbl)a, (rs_dbl)b); fflush(stdout); exit(7);
}
void rs_assert(int c, const char *m) { if (!c) fail(m, 0, 1); }
static double tol(double a, double b) { double s = fabs(a) > fabs(b) ? fabs(a) : fabs(b); if (!(s > 1)) s = 1; return RS_TOL * s; }
void rs_eq(double a, double b, const char *m) { if (!(fabs(a - b) <= tol(a, b))) fail(m, a, b); }
int rs_same(double a, double b) { return fabs(a - b) <= tol(a, b); }
void rs_le(double a, double b, const char *m) { if (!(a <= b + tol(a, b))) fail(m, a, b); }
void rs_lt(double a, double b, const char *m) { if (!(a < b + tol(a, b))) fail(m, a, b); }
void rs_reach(const char *l) { (void)l; }
int rs_is_native(void) { return 1; }
void rs_debug(const char *m, double x) { printf("%s = %.17g\n", m, (rs_dbl)x); }
static long live;
#ifdef RS_WRAP
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t s) { live++; return __real_malloc(s); }
void *__wrap_calloc(size_t a, size_t s) { live++; return __real_calloc(a, s); }
void *__wrap_realloc(void *p, size_t s) { if (!p) live++; return __real_realloc(p, s); }
void __wrap_free(void *p) { if (p) live--; __real_free(p); }
#endif
long rs_live_heap(void) { return live; }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "r");
  char line[8192], nm[256], v[4096]; char k;
  if (!f) return 3;
  while (fgets(line, sizeof line, f)) {
    if (sscanf(line, "%c %255s %4095s", &k, nm, v) != 3) continue;
    if (k == 'p') { strncpy(pn[np], nm, 63); pv[np++] = atoi(v); }
    else if (k == 'r' || k == 'i') { kind[n] = k; name_of[n] = strdup(nm); val[n++] = num(v); }
  }
  fclose(f);
  if (rs_param("pre", 0) && rs_prelude) rs_prelude();
  rs_entry();
  printf("REPLAY-OK\n");
  return 0;
}
