/* models of C library functions that call back into analysed code; analysed, never run */
#include <stddef.h>
#include <string.h>
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
  char *p = base; size_t i, j;
  for (i = 1; i < n; ++i)
    for (j = i; j > 0 && cmp(p + (j-1)*sz, p + j*sz) > 0; --j) {
      char t[512];
      memcpy(t, p + (j-1)*sz, sz); memcpy(p + (j-1)*sz, p + j*sz, sz); memcpy(p + j*sz, t, sz);
    }
}
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
  const char *p = base; size_t lo = 0, hi = n;
  while (lo < hi) {
    size_t mid = lo + (hi - lo)/2; int c = cmp(key, p + mid*sz);
    if (c == 0) return (void*)(p + mid*sz);
    if (c < 0) hi = mid; else lo = mid + 1;
  }
  return 0;
}
