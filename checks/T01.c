#define HUGE_SIZES
#include "common.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
static const uint32_t TA[] = {1, 2, 3, 7, 0, 3000000000u};
static const double SA[] = {0.5, 1, -1.5, 3, 0, 2};
static int ascending(const void* a, const void* b) { double x = *(double*)a, y = *(double*)b; return (x > y) - (x < y); }
enum { RANGE, MEAN, DEVIATION, MEDIAN, CENTER, KURTOSIS, SKEWNESS, INHARMONICITY, STATS };
void vf_body(void) {
  int f = vf_choose(STATS, "statistic"), type = vf_choose(2, "type"), n = choose_size(1, vf_bound(5, 6), "size"), shape = n >= large_from ? vf_choose(PATTERNS, "shape") : 0;
  if (f == INHARMONICITY && n == HUGE_SIZE) vf_skip(); /* quadratic */
  double* x = vf_doubles(n), *x0, out[3] = {NAN, NAN, NAN};
  uint32_t* t = vf_u32s(n);
  int an = f == INHARMONICITY ? 4 : 6;
  for (int i = 0; i < n; i++) {
    int c = n >= large_from ? pattern(shape, i, n, an) : vf_choose(an, "value");
    t[i] = TA[c];
    if (f == CENTER && type && SA[c] < 0) vf_skip();
    x[i] = type ? f == INHARMONICITY ? fabs(SA[c]) : SA[c] : t[i];
  }
  x0 = copy_doubles(x, n);
  uint32_t* t0 = copy_u32s(t, n);
  note_doubles("in", x, n < 20 ? n : 0);
  long double mean = 0, m2 = 0, m3 = 0, m4 = 0, sum = 0, weighted = 0;
  for (int i = 0; i < n; i++) { sum += x[i]; weighted += i * x[i]; }
  mean = sum / n;
  for (int i = 0; i < n; i++) { long double d = x[i] - mean; m2 += d * d; m3 += d * d * d; m4 += d * d * d * d; }
  m2 /= n; m3 /= n; m4 /= n;
  uint8_t (*const tf[])(sp_time_t*, sp_time_t, sp_sample_t*) = {sp_stat_times_range, sp_stat_times_mean, sp_stat_times_deviation, sp_stat_times_median, sp_stat_times_center, sp_stat_times_kurtosis, sp_stat_times_skewness, sp_stat_times_inharmonicity};
  uint8_t (*const sf[])(sp_sample_t*, sp_time_t, sp_sample_t*) = {sp_stat_samples_range, sp_stat_samples_mean, sp_stat_samples_deviation, sp_stat_samples_median, sp_stat_samples_center, sp_stat_samples_kurtosis, sp_stat_samples_skewness, sp_stat_samples_inharmonicity};
  if ((f == KURTOSIS || f == SKEWNESS) && m2 == 0) vf_skip();
  if (f == CENTER && sum == 0) vf_skip();
  vf_track = 1;
  int status = type ? sf[f](x, n, out) : tf[f](t, n, out);
  vf_track = 0;
  VF(!status && !vf_live(), "status", "status %d, %ld blocks", status, vf_live());
  same_doubles(x, x0, n, "input", "input"); same_u32s(t, t0, n, "input", "input");
  double e = 0;
  switch (f) {
  case RANGE: {
    double lo = x[0], hi = x[0];
    for (int i = 0; i < n; i++) { if (x[i] < lo) lo = x[i]; if (x[i] > hi) hi = x[i]; }
    VF(out[0] == lo && out[1] == hi && vf_close(out[2], hi - lo), "range", "%g %g %g", out[0], out[1], out[2]);
    e = out[0]; fp_reset(); break; }
  case MEAN: e = mean; break;
  case DEVIATION: e = sqrtl(m2); break;
  case MEDIAN: {
    double* s = copy_doubles(x, n);
    qsort(s, n, sizeof *s, ascending);
    e = n & 1 ? s[n / 2] : (s[n / 2] + s[n / 2 - 1]) / 2; break; }
  case CENTER:
    e = weighted / sum;
    if (!type && !vf_close(out[0], e) && vf_close(out[0], weighted / (sum + x[0]))) vf_fail("times_center_first_twice", "centre %.17g instead of %.17g: the first value is counted twice", out[0], e);
    break;
  case KURTOSIS: e = m4 / (m2 * m2); break;
  case SKEWNESS: e = m3 / sqrtl(m2 * m2 * m2); break;
  case INHARMONICITY: {
    e = n;
    for (int i = 0; i < n; i++) {
      double s = 0;
      for (int k = 0; k < n; k++) { double b = x[k] / x[i]; b -= floor(b); s += b <= 0.5 ? b : 1 - b; }
      if (s / n < e) e = s / n;
    }
    break; }
  }
  VF(f == RANGE || fabs(out[0] - e) <= 1e-7 * (fabs(e) > 1 ? fabs(e) : 1), "value", "statistic %d: %.17g instead of %.17g", f, out[0], e);
  fp_reset(); fp_int(f); fp_double(out[0]); fp_done();
}
