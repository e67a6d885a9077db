#ifndef vf_common_h
#define vf_common_h
#include "mc.h"
#include <math.h>
#include <string.h>
#include <stdlib.h>
#define LEN(a) ((int)(sizeof(a) / sizeof((a)[0])))
#define EQ(a, b, key, what) VF(vf_close((a), (b)), key, "%s: %.17g instead of %.17g", what, (double)(a), (double)(b))
/* arrays of exact size whose elements are chosen from an alphabet. larger arrays are filled with one of a few patterns */
#define LARGE 301
/* checks that define HUGE_SIZES also use one size that sixteen bits can not count */
#define HUGE_SIZE 66003
static int large_from = LARGE; /* the size from which patterns are used */
#define PATTERNS 8
static int pattern(int k, uint32_t i, uint32_t n, uint32_t size) {
  /* one element that differs from all others, at the ends and in the middle */
  if (k > 3) return k == 4 ? (i == n - 1) * (size - 1) : k == 5 ? (i != n - 1) * (size - 1) : k == 6 ? !i * (size - 1) : (i == n / 2) * (size - 1);
  return (k == 0 ? i : k == 1 ? i * i + i / size : k == 2 ? i * 7 + 3 : i == LARGE - 1 || i == HUGE_SIZE - 1 || i == 4 || i == 30 ? 1 : 0) % size;
}
static double* choose_doubles(int n, const double* alphabet, int size, const char* label) {
  double* a = vf_doubles(n);
  int k = n >= large_from ? vf_choose(PATTERNS, label) : 0;
  for (int i = 0; i < n; i++) a[i] = alphabet[n >= large_from ? pattern(k, i, n, size) : vf_choose(size, label)];
  return a;
}
static uint32_t* choose_u32s(int n, const uint32_t* alphabet, int size, const char* label) {
  uint32_t* a = vf_u32s(n);
  int k = n >= large_from ? vf_choose(PATTERNS, label) : 0;
  for (int i = 0; i < n; i++) a[i] = alphabet[n >= large_from ? pattern(k, i, n, size) : vf_choose(size, label)];
  return a;
}
/* sizes from min to max, sizes around powers of two and multiples of small numbers, and sizes that eight and sixteen bits can not count */
static int choose_size(int min, int max, const char* label) {
  static const int larger[] = {5, 6, 7, 8, 9, 10, 12, 13, 16, 17, 31, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, LARGE,
#ifdef HUGE_SIZES
  HUGE_SIZE,
#endif
  };
  int first = 0;
  while (larger[first] <= max) first++;
  int n = min + vf_choose(max - min + 1 + LEN(larger) - first, label);
  large_from = max + 1;
  return n > max ? larger[first + n - max - 1] : n;
}
/* like vf_choose, but only positions around the ends, the middle and the eight bit limit if there are many */
static int choose_index(int n, const char* label) {
  if (n < 12) return vf_choose(n, label);
  if (n >= HUGE_SIZE / 2) {
    const int a[] = {0, 256, n / 2, n > 65535 ? 65535 : 3, n > 65536 ? 65536 : 4, n - 1};
    return a[vf_choose(6, label)];
  }
  const int a[] = {0, 1, n / 2, n - 2, n - 1, n > 254 ? 254 : 2, n > 255 ? 255 : 3, n > 256 ? 256 : 7};
  return a[vf_choose(8, label)];
}
static double* copy_doubles(const double* a, int n) { double* b = vf_doubles(n); memcpy(b, a, n * sizeof *b); return b; }
static uint32_t* copy_u32s(const uint32_t* a, int n) { uint32_t* b = vf_u32s(n); memcpy(b, a, n * sizeof *b); return b; }
static void same_doubles(const double* a, const double* b, int n, const char* key, const char* what) {
  for (int i = 0; i < n; i++) VF(vf_close(a[i], b[i]), key, "%s: index %d is %.17g instead of %.17g", what, i, a[i], b[i]);
}
static void same_u32s(const uint32_t* a, const uint32_t* b, int n, const char* key, const char* what) {
  for (int i = 0; i < n; i++) VF(a[i] == b[i], key, "%s: index %d is %u instead of %u", what, i, a[i], b[i]);
}
static void note_doubles(const char* name, const double* a, int n) { vf_note(" %s=(", name); for (int i = 0; i < n; i++) vf_note(i ? " %g" : "%g", a[i]); vf_note(")"); }
static void note_u32s(const char* name, const uint32_t* a, int n) { vf_note(" %s=(", name); for (int i = 0; i < n; i++) vf_note(i ? " %u" : "%u", a[i]); vf_note(")"); }
/* all ways to cut a range into consecutive non-empty parts: returns the next end after start */
static int next_cut(int start, int end, const char* label) { return end - start <= 1 ? end : start + 1 + vf_choose(end - start, label); }
static uint64_t fp = 0;
static void fp_reset(void) { fp = 1469598103934665603ull; }
static void fp_add(const void* p, size_t n) { const uint8_t* a = p; for (size_t i = 0; i < n; i++) fp = (fp ^ a[i]) * 1099511628211ull; }
static void fp_double(double a) { float f = (float)a; if (f == 0) f = 0; fp_add(&f, sizeof f); }
static void fp_doubles(const double* a, int n) { for (int i = 0; i < n; i++) fp_double(a[i]); }
static void fp_int(long a) { fp_add(&a, sizeof a); }
static void fp_done(void) { vf_state_u64(fp); }
#endif
