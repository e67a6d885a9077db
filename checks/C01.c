#include "common.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
static const double AL[] = {1, 0, -2, 3};
/* many samples and coefficients, in segments of equal size */
static void large(void) {
  static const int N[] = {301, 257, 1101, 66003}, M[] = {1, 2, 7, 41, 256, 257, 301}, STEP[] = {1, 3, 64, 255, 256, 299, 1100, 65537};
  int n = N[vf_choose(LEN(N), "length")], m = M[vf_choose(LEN(M), "response")], step = STEP[vf_choose(LEN(STEP), "segments")], len = 0;
  if (n == 66003 && step < 1100) vf_skip();
  /* a response that is longer than the segments and than sixteen bits can count */
  if (n == 301 && step > 64 && m == 7 && vf_choose(2, "large response")) m = 66003;
  double *a = vf_doubles(n), *b = vf_doubles(m), *e = vf_doubles(n + m), *out = vf_doubles(n + m), *carryover = vf_doubles(m - 1);
  for (int i = 0; i < n; i++) a[i] = i * i % 23 - 11;
  for (int i = 0; i < m; i++) b[i] = i * 7 % 19 - 8;
  for (int i = 0; i < n + m; i++) e[i] = 0;
  for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) e[i + k] += a[i] * b[k];
  vf_note(" length %d, response %d, segments %d", n, m, step);
  fp_reset();
  memset(out, 0, (n + m) * sizeof *out);
  sp_convolve_one(a, n, b, m, out);
  same_doubles(out, e, n + m - 1, "whole", "convolution");
  memset(carryover, 0, (m - 1) * sizeof *carryover);
  for (int t = 0; t < n; t += step, len = m - 1) {
    int c = t + step < n ? step : n - t;
    double* o = vf_doubles(c);
    sp_convolve(a + t, c, b, m, len, carryover, o);
    vf_op();
    same_doubles(o, e + t, c, "segments", "convolution in segments");
  }
  same_doubles(carryover, e + n, m - 1, "carryover", "carryover at the end");
  fp_doubles(out, n); fp_done();
}
void vf_body(void) {
  if (vf_choose(2, "part")) { large(); return; }
  int whole = vf_choose(2, "one shot"), n = vf_range(1, vf_bound(6, 7), "length"), m = vf_range(1, vf_bound(5, 6), "response"), full = n + m - 1;
  double *a = vf_doubles(n), *b = vf_doubles(m), *e = vf_doubles(full), *a0, *b0;
  /* convolution is linear in both arguments: products of values 2**i and 17**k distinguish all pairs. small alphabets are enumerated in addition */
  int variants = vf_choose(2, "variants");
  int an = n + m <= 6 ? 4 : n + m <= 8 ? 3 : 2;
  for (int i = 0; i < n; i++) a[i] = variants ? AL[vf_choose(an, "signal")] : 1 << i;
  for (int i = 0; i < m; i++) b[i] = variants ? n + m <= 7 ? AL[vf_choose(2, "response")] : 1 + i * i : 1ll << (7 * i);
  a0 = copy_doubles(a, n); b0 = copy_doubles(b, m);
  for (int i = 0; i < full; i++) { e[i] = 0; for (int k = 0; k < m; k++) if (i - k >= 0 && i - k < n) e[i] += a[i - k] * b[k]; }
  fp_reset();
  if (whole) {
    double* out = vf_doubles(full);
    memset(out, 0, full * sizeof *out);
    sp_convolve_one(a, n, b, m, out);
    same_doubles(out, e, full, "whole", "convolution");
    same_doubles(a, a0, n, "input", "signal"); same_doubles(b, b0, m, "input", "response");
    fp_doubles(out, full); fp_done();
    return;
  }
  double *out = vf_doubles(n), *carryover = vf_doubles(m - 1);
  int len = vf_choose(2, "initial carryover") ? m - 1 : 0;
  memset(carryover, 0, (m - 1) * sizeof *carryover);
  for (int t = 0, cut; t < n; t = cut) {
    cut = next_cut(t, n, "cut");
    double* o = vf_doubles(cut - t);
    sp_convolve(a + t, cut - t, b, m, len, carryover, o);
    vf_op();
    memcpy(out + t, o, (cut - t) * sizeof *o);
    same_doubles(out, e, cut, "segments", "convolution in segments");
    len = m - 1;
    /* what is carried over is the rest of the convolution of everything so far */
    for (int k = 0; k < m - 1; k++) {
      double v = 0;
      for (int i = 0; i < cut; i++) if (cut + k - i >= 0 && cut + k - i < m) v += a[i] * b[cut + k - i];
      VF(vf_close(carryover[k], v), "carryover", "carryover %d after %d samples is %g instead of %g", k, cut, carryover[k], v);
    }
    fp_doubles(carryover, m - 1);
  }
  same_doubles(a, a0, n, "input", "signal"); same_doubles(b, b0, m, "input", "response");
  fp_doubles(out, n); fp_done();
}
