/* library functions the engine does not know, as plain C (linked into the bitcode only; replays use the system's) */
#include <stddef.h>
typedef int (*cmp_t)(const void *, const void *);
void qsort(void *base, size_t n, size_t size, cmp_t cmp) {
  char *b = base;
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * size, b + j * size) > 0; j--)
    for (size_t k = 0; k < size; k += size % 8 ? size % 4 ? 1 : 4 : 8) {
      if (size % 8 == 0) { double t = *(double *)(b + (j - 1) * size + k); *(double *)(b + (j - 1) * size + k) = *(double *)(b + j * size + k); *(double *)(b + j * size + k) = t; }
      else if (size % 4 == 0) { int t = *(int *)(b + (j - 1) * size + k); *(int *)(b + (j - 1) * size + k) = *(int *)(b + j * size + k); *(int *)(b + j * size + k) = t; }
      else { char t = b[(j - 1) * size + k]; b[(j - 1) * size + k] = b[j * size + k]; b[j * size + k] = t; }
    }
}
void *bsearch(const void *key, const void *base, size_t n, size_t size, cmp_t cmp) {
  const char *b = base;
  for (size_t i = 0; i < n; i++) if (cmp(key, b + i * size) == 0) return (void *)(b + i * size);
  return 0;
}
double ldexp(double x, int e) { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; }
double scalbn(double x, int e) { return ldexp(x, e); }
long long llabs(long long x) { return x < 0 ? -x : x; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
