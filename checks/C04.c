#include "common.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
static const double AL[] = {0, 1, -2, 5};
static double at(const double* in, const double* prev, const double* next, long n, long j) {
  if (j < 0) return prev ? prev[n + j] : -in[-j];
  if (j >= n) return next ? next[j - n] : -in[2 * (n - 1) - j];
  return in[j];
}
void vf_body(void) {
  static const int R[] = {20, 33, 64, 100, 127, 128, 149, 300, 6007};
  int segments = vf_choose(4, "kind"), radius = segments == 3 ? R[vf_choose(LEN(R), "radius")] : vf_choose(vf_bound(4, 5), "radius"), n;
  fp_reset();
  if (segments == 2) {
    /* three segments of equal size give what a filter over everything gives */
    int max = vf_bound(6, 7);
    n = 2 * radius + 2;
    if (n > max) vf_skip();
    n = vf_range(n, max, "segment");
    int total = 3 * n;
    double *in = vf_doubles(total), *out = vf_doubles(total), *e = vf_doubles(total);
    for (int i = 0; i < total; i++) in[i] = i % n == n - 1 || i % n < 2 ? AL[vf_choose(3, "value")] : (i * 7) % 5;
    sp_moving_average(in, total, 0, 0, radius, e);
    sp_moving_average(in, n, 0, in + n, radius, out);
    sp_moving_average(in + n, n, in, in + 2 * n, radius, out + n);
    sp_moving_average(in + 2 * n, n, in + n, 0, radius, out + 2 * n);
    same_doubles(out, e, total, "segments", "segments");
    fp_doubles(out, total); fp_done();
    return;
  }
  n = segments == 3 ? radius > 300 ? 12160 : radius > 149 ? HUGE_SIZE : (int[]){LARGE, 2 * radius + 2, 2 * radius + 5}[vf_choose(3, "large size")] : vf_range(2 * radius + 2, 2 * radius + 2 + vf_bound(3, 4), "size");
  /* linear in all inputs: unit vectors decide all, small alphabets are enumerated in addition */
  int has_prev = vf_choose(2, "previous"), has_next = vf_choose(2, "next");
  double *in = vf_doubles(n), *out = vf_doubles(n), *prev = has_prev ? vf_doubles(n) : 0, *next = has_next ? vf_doubles(radius) : 0;
  int unit = segments == 3 ? choose_index(n + (prev ? n : 0) + (next ? radius : 0), "unit vector") : segments ? -1 : vf_choose(n + (prev ? n : 0) + (next ? radius : 0), "unit vector"), k = 0, varied = 0;
  for (int i = 0; i < n; i++) in[i] = unit >= 0 ? k++ == unit : (i < 3 || i > n - 3) && varied++ < 5 ? AL[vf_choose(4, "value")] : i * i % 7;
  if (prev) for (int i = 0; i < n; i++) prev[i] = unit >= 0 ? k++ == unit : i > n - 3 ? AL[vf_choose(3, "previous value")] : 3 * i % 7;
  if (next) for (int i = 0; i < radius; i++) next[i] = unit >= 0 ? k++ == unit : i < 1 ? AL[vf_choose(3, "next value")] : 11 * i % 7;
  double* in0 = copy_doubles(in, n);
  sp_moving_average(in, n, prev, next, radius, out);
  double sum = 0;
  for (int i = 0; i < n; i++) {
    /* the values are integers, differences are exact */
    if (i && radius > 300) sum += at(in, prev, next, n, i + radius) - at(in, prev, next, n, i - 1 - radius);
    else for (int j = i - radius, first = sum = 0; j <= i + radius + first; j++) sum += at(in, prev, next, n, j);
    EQ(out[i], sum / (2 * radius + 1), "mean", "mean");
  }
  same_doubles(in, in0, n, "input", "input");
  fp_doubles(out, n); fp_done();
}
