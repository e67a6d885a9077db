#include "common.h"
#include <float.h>
/* sums against exact integer arithmetic, comparison against its definition */
void vf_init(void) { }
/* in units of 2^-30. all are exact in both types, with sums that are not */
typedef __int128 big;
static const int64_t UNITS[] = {1L << 30, -(1L << 30), 1, -3, 1L << 61, -(1L << 61), (1L << 53) + (1L << 30)};
static const int64_t FLOATS[] = {1L << 30, -(1L << 30), 1, -3, 1L << 58, -(1L << 58), 5L << 24};
static void sum(void) {
  int f = vf_choose(2, "float"), n, k = 0, many = vf_choose(2, "many");
  static const int SIZES[] = {17, 64, 255, 256, 257, 1000, 5003, 66003};
  n = many ? SIZES[vf_choose(LEN(SIZES), "size")] : vf_range(1, vf_bound(5, 6), "size");
  if (many) k = vf_choose(5, "pattern");
  big exact = 0; long double magnitude = 0;
  double* a = vf_doubles(n); float* b = vf_mem(n * sizeof *b);
  for (int i = 0; i < n; i++) {
    int c = !many ? vf_choose(LEN(UNITS), "element") : k == 0 ? i % LEN(UNITS) : k == 1 ? (i ? 0 : 4) : k == 2 ? (i == n - 1 ? 5 : i % 3 ? 0 : 2) : k == 3 ? (i == n / 2 ? 4 : i == n / 2 + 1 ? 5 : 2) : i * 5 % 4;
    int64_t v = (f ? FLOATS : UNITS)[c];
    exact += v; magnitude += llabs(v);
    a[i] = b[i] = (float)ldexp(v, -30);
    if (!f) a[i] = ldexp(v, -30);
    if (!many) vf_note(" %g", a[i]);
  }
  long double r = f ? sph_f32_sum(b, n) : sph_f64_sum(a, n), e = ldexpl((long double)exact, -30), m = ldexpl(magnitude, -30), eps = f ? FLT_EPSILON : DBL_EPSILON;
  vf_op();
  VF(fabsl(r - e) <= eps * fabsl(e) + eps * eps * (n * 0.25L * n + 2 * n) * m, "sum", "sum of %d %s is %.17Lg instead of %.17Lg", n, f ? "floats" : "doubles", r, e);
  double mean;
  if (!f) {
    VF(sp_samples_sum(a, n) == (double)r, "alias", "sp_samples_sum differs");
    VF(sp_stat_samples_mean(a, n, &mean) == 0, "mean", "status");
    VF(fabsl(mean - e / n) <= (2 * eps * fabsl(e) + eps * eps * (n * 0.25L * n + 2 * n) * m) / n, "mean", "mean of %d is %.17g instead of %.17Lg", n, mean, e / n);
  }
  fp_reset(); fp_int(n); fp_double(r); fp_done();
}
static void compare(void) {
  static const double V[] = {0, 1, 1.25, -1, 1.5, 1e300}, M[] = {0.25, 0.5, 0.125, 3, 1e-300};
  static const int SIZES[] = {17, 256, 257, 66003};
  int f = vf_choose(2, "float"), many = vf_choose(2, "many"), n = many ? SIZES[vf_choose(4, "size")] : vf_choose(vf_bound(3, 4), "size"), m = many ? n : vf_choose(vf_bound(3, 4), "other size"), expected = n == m;
  double margin = M[vf_choose(5, "margin")];
  double* a = vf_doubles(n), *b = vf_doubles(m); float* fa = vf_mem(n * 4), *fb = vf_mem(m * 4);
  int at = many ? (int[]){0, 1, n / 2, 255, 256, n - 1, -1}[vf_choose(7, "different at")] : 0;
  for (int i = 0; i < n; i++) a[i] = many ? i % 7 : V[vf_choose(5, "a")];
  for (int i = 0; i < m; i++) b[i] = many ? a[i] + (i == at && i < n) : V[vf_choose(5, "b")];
  for (int i = 0; i < n; i++) fa[i] = a[i];
  for (int i = 0; i < m; i++) fb[i] = b[i];
  for (int i = 0; i < n && i < m; i++) {
    int near = (f ? fabsf(fa[i] - fb[i]) < (float)margin : fabs(a[i] - b[i]) < margin);
    int r = f ? sph_f32_nearly_equal(fa[i], fb[i], margin) : sp_sample_nearly_equal(a[i], b[i], margin);
    VF(!r == !near, "nearly_equal", "%g and %g with margin %g: %d", a[i], b[i], margin, r);
    if (!near) expected = 0;
  }
  int r = f ? sph_f32_array_nearly_equal(fa, n, fb, m, margin) : sp_samples_nearly_equal(a, n, b, m, margin);
  vf_op();
  note_doubles("a", a, n < 9 ? n : 0); note_doubles("b", b, m < 9 ? m : 0);
  VF(!r == !expected, "array_nearly_equal", "sizes %d and %d with margin %g: %d instead of %d", n, m, margin, r, expected);
  fp_reset(); fp_int(expected); fp_int(n); fp_int(m); fp_double(margin); fp_done();
}
void vf_body(void) { if (vf_choose(2, "kind")) compare(); else sum(); }
