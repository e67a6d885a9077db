#include "paths.h"
/* paths through two to five points: general function, fixed point count variants, times */
void vf_init(void) { sp_initialize(0, 1, 8); }
static const double YS[] = {0, 1, 4, 2.5, -3};
static const double CS[] = {0, 0.5, -0.5, 1, -1, 1e-6, 0.05, -0.002};
static status_t variant(int times, int n, int curved, void* out, int length, double* x, double* y, double* c) {
#define V(type) switch (n) { \
  case 2: return curved ? sp_path_##type##_c2(out, length, y[0], y[1], c[0]) : sp_path_##type##2(out, length, y[0], y[1]); \
  case 3: return curved ? sp_path_##type##_c3(out, length, x[0], y[0], y[1], y[2], c[0], c[1]) : sp_path_##type##3(out, length, x[0], y[0], y[1], y[2]); \
  case 4: return curved ? sp_path_##type##_c4(out, length, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]) : sp_path_##type##4(out, length, x[0], x[1], y[0], y[1], y[2], y[3]); \
  default: return curved ? sp_path_##type##_c5(out, length, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]) : sp_path_##type##5(out, length, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]); }
  if (times) { V(times) } else { V(samples) }
}
/* up to the greatest number of points, and long paths */
static void many(void) {
  static const int POINTS[] = {2, 3, 4, 5, 6, 7, 12, 16, 17, 23, 24}, LENGTHS[] = {31, 321, 5056, 66003};
  int n = POINTS[vf_choose(LEN(POINTS), "points")], length = LENGTHS[vf_choose(4, "length")], curved = vf_choose(3, "curved"), times = vf_choose(2, "times"), spread = vf_choose(3, "spread");
  double* x = vf_doubles(n - 2), *y = vf_doubles(n), *c = curved ? vf_doubles(n - 1) : 0, px[24], *out = 0;
  uint32_t* t = 0;
  px[0] = 0; px[n - 1] = length;
  for (int i = 1; i < n - 1; i++) px[i] = x[i - 1] = spread == 0 ? (int)((long)i * length / (n - 1)) : spread == 1 ? i : length - (n - 1 - i);
  for (int i = 0; i < n; i++) y[i] = i * 7 % 11 - (times ? 0 : 3);
  if (c) for (int i = 0; i < n - 1; i++) c[i] = curved == 1 ? 0 : CS[(i + n) % 8];
  vf_track = 1;
  status_t s = times ? sp_path_times(&t, length, n, x, y, c) : sp_path_samples(&out, length, n, x, y, c);
  vf_track = 0;
  vf_op();
  VF(!s.id && vf_live() == 1, "status", "status %d, %ld blocks", s.id, vf_live());
  if (times) {
    VF(!sp_path_samples(&out, length, n, x, y, c).id, "samples_status", "sp_path_samples fails");
    check_times(t, out, length, "sp_path_times");
    free(t);
  }
  check_path(out, length, n, px, y, c, "path of many points");
  fp_reset(); fp_int(n); fp_doubles(out, length); fp_done();
  free(out);
}
void vf_body(void) {
  if (vf_choose(2, "many")) { many(); return; }
  int n = vf_range(2, vf_bound(5, 6), "points"), curved = vf_choose(2, "curved"), times = vf_choose(2, "times"), large = n < 5 ? vf_choose(2, "large") : 0;
  static const int STEPS[] = {0, 1, 97, 256, 1000}, LARGE_LENGTHS[] = {300, 1024};
  int length = large ? LARGE_LENGTHS[vf_choose(2, "length")] : n == 2 ? vf_range(1, vf_bound(9, 14), "length") : n == 3 ? vf_range(1, vf_bound(6, 9), "length") : n + 1 + vf_choose(vf_bound(1, 2), "length");
  int fail = n < 4 && !large ? vf_choose(3, "failing allocation") : 0;
  /* exact size: a general path has as many curvatures as segments */
  double* x = vf_doubles(n - 2), *y = vf_doubles(n), *c = curved ? vf_doubles(n - 1) : 0, px[8], *out = 0, *out2 = 0;
  uint32_t* t = 0, *t2 = 0;
  px[0] = 0;
  for (int i = 0; i < n - 2; i++) { int lo = px[i]; if (large) { int step = STEPS[vf_choose(5, "x")]; x[i] = px[i + 1] = lo + step < length ? lo + step : length; } else x[i] = px[i + 1] = lo + vf_choose(length - lo + 1, "x"); }
  px[n - 1] = length;
  for (int i = 0; i < n; i++) y[i] = YS[vf_choose((n < 4 ? 5 : n == 4 ? 3 : 2) - (times && n < 4), "y")];
  if (c) for (int i = 0; i < n - 1; i++) c[i] = n == 2 ? CS[vf_choose(8, "c")] : n == 3 ? CS[(int[]){0, 1, 2, 3, 6}[vf_choose(5, "c")]] : CS[vf_choose(3, "c")] * (i == 1 ? -1 : 1);
  note_doubles("x", x, n - 2); note_doubles("y", y, n); if (c) note_doubles("c", c, n - 1);
  vf_track = 1; vf_fail_at = fail;
  status_t s = times ? sp_path_times(&t, length, n, x, y, c) : sp_path_samples(&out, length, n, x, y, c);
  vf_op();
  if (vf_fail_count) {
    VF(s.id, "memory_success", "success without memory");
    VF(!vf_live(), "memory_leak", "%ld blocks not freed", vf_live());
    fp_reset(); fp_int(s.id); fp_done(); return;
  }
  if (fail) vf_trivial();
  VF(!s.id, "status", "status %d", s.id);
  VF(vf_live() == 1, "result_memory", "%ld blocks for one result", vf_live());
  vf_fail_at = 0; fp_reset(); fp_int(n);
  if (n <= 5) {
    s = variant(times, n, curved, times ? (void*)&t2 : (void*)&out2, length, x, y, c);
    vf_op();
    VF(!s.id, "variant_status", "status %d", s.id);
  }
  vf_track = 0;
  if (times) {
    VF(!sp_path_samples(&out, length, n, x, y, c).id, "samples_status", "sp_path_samples fails");
    check_times(t, out, length, "sp_path_times");
    if (t2) same_u32s(t2, t, length, "variant", "variant for times");
    fp_add(t, length * 4);
    free(t); free(t2);
  } else {
    if (out2) same_doubles(out2, out, length, "variant", "variant for samples");
    fp_doubles(out, length);
  }
  check_path(out, length, n, px, y, c, "path");
  free(out); free(out2);
  fp_done();
}
