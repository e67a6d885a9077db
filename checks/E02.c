#include "paths.h"
/* envelopes: general functions and variants with fixed point counts */
void vf_init(void) { sp_initialize(0, 1, 8); }
static const double XS[] = {0.25, 0.5, 0, 0.125};
static const double YS[] = {1, 0.25, 3, 0};
static const double CS[] = {0, 0.5, -1, 0.05};
static const int LENGTHS[] = {8, 4, 1024, 16, 5, 7, 1, 300};
/* up to the greatest number of points, and long envelopes */
static void many(void) {
  static const int POINTS[] = {3, 4, 6, 7, 12, 17, 23, 24}, LENGTHS[] = {32, 321, 5056, 66003};
  int scaled = vf_choose(2, "scaled"), n = POINTS[vf_choose(LEN(POINTS), "points")], curved = vf_choose(3, "curved"), length = LENGTHS[vf_choose(4, "length")], late = vf_choose(2, "late"), ys = scaled ? n : n - 2;
  double* x = vf_doubles(n - 2), *y = vf_doubles(ys), *c = curved ? vf_doubles(n - 1) : 0, px[24], py[24], *out = 0, sum = 0;
  uint32_t* t = 0;
  double factor = n & 1 ? 3 : 100.5;
  px[0] = py[0] = py[n - 1] = 0; px[n - 1] = length;
  /* exact fractions */
  for (int i = 0; i < n - 2; i++) { x[i] = late && !i ? 0.25 : 0.03125; sum += x[i]; px[i + 1] = sum * length; }
  for (int i = 0; i < ys; i++) { y[i] = i * 7 % 11; py[i + !scaled] = y[i] * (scaled ? factor : 1); }
  if (c) for (int i = 0; i < n - 1; i++) c[i] = curved == 1 ? 0 : CS[(i + n) % 4];
  if (sum > 1) vf_skip();
  vf_track = 1;
  status_t s = scaled ? sp_envelope_scaled(&t, length, n, factor, x, y, c) : sp_envelope_zero(&out, length, n, x, y, c);
  vf_track = 0;
  vf_op();
  VF(!s.id && vf_live() == 1, "status", "status %d, %ld blocks", s.id, vf_live());
  if (scaled) {
    VF(!sp_path_samples(&out, length, n, px + 1, py, c).id, "path", "sp_path_samples fails");
    check_times(t, out, length, "scaled envelope");
    free(t);
  }
  check_path(out, length, n, px, py, c, "envelope of many points");
  fp_reset(); fp_int(n); fp_doubles(out, length); fp_done();
  free(out);
}
void vf_body(void) {
  if (vf_choose(2, "many")) { many(); return; }
  int scaled = vf_choose(2, "scaled"), n = vf_range(3, vf_bound(5, 6), "points"), curved = vf_choose(2, "curved"), length = LENGTHS[vf_choose(n == 3 ? 8 : 4, "length")];
  double* x = vf_doubles(n - 2), *y = vf_doubles(scaled ? n : n - 2), *c = curved ? vf_doubles(n - 1) : 0, px[8], py[8], sum = 0, scale = 1;
  px[0] = 0; px[n - 1] = length;
  for (int i = 0; i < n - 2; i++) {
    x[i] = XS[vf_choose(n < 5 ? 4 : 3, "x")];
    sum += x[i];
    if (sum > 1) vf_skip();
    px[i + 1] = sum * length;
  }
  if (scaled) {
    scale = (double[]){3, 10, 0, 0.5, 0.0005}[vf_choose(n == 3 ? 5 : 2, "y scale")];
    for (int i = 0; i < n; i++) py[i] = (y[i] = YS[vf_choose(n == 3 ? 4 : 2, "y")]) * scale;
  } else {
    for (int i = 0; i < n - 2; i++) py[i + 1] = y[i] = YS[vf_choose(4, "y")];
    py[0] = py[n - 1] = 0;
  }
  if (c) for (int i = 0; i < n - 1; i++) c[i] = CS[vf_choose(n == 3 ? 4 : 3, "c")];
  vf_note(" length %d", length); note_doubles("x", x, n - 2); note_doubles("y", y, scaled ? n : n - 2); if (c) note_doubles("c", c, n - 1);
  double* out = 0, *out2 = 0;
  uint32_t* t = 0, *t2 = 0;
  status_t s;
  vf_track = 1;
  fp_reset(); fp_int(scaled);
  if (scaled) {
    s = sp_envelope_scaled(&t, length, n, scale, x, y, c);
    vf_op();
    VF(!s.id && t, "scaled_status", "status %d", s.id);
    int variant = 1;
    if (n > 5) variant = 0;
    else if (curved) s = n == 3 ? sp_envelope_scaled_c3(&t2, length, scale, x[0], y[0], y[1], y[2], c[0], c[1]) :
      n == 4 ? sp_envelope_scaled_c4(&t2, length, scale, x[0], x[1], y[0], y[1], y[2], y[3], c[0], c[1], c[2]) :
      sp_envelope_scaled_c5(&t2, length, scale, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4], c[0], c[1], c[2], c[3]);
    else if (n == 3) s = sp_envelope_scaled3(&t2, length, scale, x[0], y[0], y[1], y[2]);
    else if (n == 4) s = sp_envelope_scaled4(&t2, length, scale, x[0], x[1], y[0], y[1], y[2], y[3]);
    else s = sp_envelope_scaled5(&t2, length, scale, x[0], x[1], x[2], y[0], y[1], y[2], y[3], y[4]);
    if (variant) { VF(!s.id, "variant_status", "status %d", s.id); same_u32s(t2, t, length, "scaled_variant", "variant"); }
    VF(vf_live() == 1 + variant, "memory", "%ld blocks", vf_live());
    /* times are rounded: compare through the path they are made of */
    vf_track = 0;
    VF(!sp_path_samples(&out, length, n, px + 1, py, c).id, "path", "sp_path_samples fails");
    check_path(out, length, n, px, py, c, "path of the envelope");
    check_times(t, out, length, "scaled envelope");
    fp_add(t, length * 4);
  } else {
    s = sp_envelope_zero(&out, length, n, x, y, c);
    vf_op();
    VF(!s.id && out, "zero_status", "status %d", s.id);
    int variant = 1;
    if (n > 5) variant = 0;
    else if (n == 3) s = curved ? sp_envelope_zero_c3(&out2, length, x[0], y[0], c[0], c[1]) : sp_envelope_zero3(&out2, length, x[0], y[0]);
    else if (n == 4) s = curved ? sp_envelope_zero_c4(&out2, length, x[0], x[1], y[0], y[1], c[0], c[1], c[2]) : sp_envelope_zero4(&out2, length, x[0], x[1], y[0], y[1]);
    else s = curved ? sp_envelope_zero_c5(&out2, length, x[0], x[1], x[2], y[0], y[1], y[2], c[0], c[1], c[2], c[3]) : sp_envelope_zero5(&out2, length, x[0], x[1], x[2], y[0], y[1], y[2]);
    if (variant) { VF(!s.id, "variant_status", "status %d", s.id); same_doubles(out2, out, length, "zero_variant", "variant"); }
    VF(vf_live() == 1 + variant, "memory", "%ld blocks", vf_live());
    check_path(out, length, n, px, py, c, "zero envelope");
    if (px[1] >= 1 && !(c && c[0] != 0)) VF(out[0] == 0, "zero_start", "starts at %g", out[0]);
    fp_doubles(out, length);
  }
  vf_track = 0;
  free(out); free(out2); free(t); free(t2);
  fp_done();
}
