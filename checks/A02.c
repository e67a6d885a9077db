#define HUGE_SIZES
#include "common.h"
#include <fenv.h>
void vf_init(void) { sp_initialize(0, 1, 8); }
static const uint32_t TA[] = {0, 1, 2, 3, 7, 100, 4000000000u}, TT[] = {0, 1, 3, 10, 1000, 161, 192, 40000003, 4294967295u};
static const double SA[] = {0, 1, -1, 0.25, -3, 8}, ST[] = {0.5, 0.0004, 1, 2, 10, 1000.25}, SP[] = {0, 0.25, 0.5, 1.49, 1.5, 7.75, 1000000.5}, BIG[] = {1, 1e16, -1e16, -1, 3};
void vf_body(void) {
  int op = vf_choose(10, "operation"), n = choose_size(1, vf_bound(3, 4), "size");
  uint32_t *t, *t0; double *s, *s0; status_t st;
  fp_reset(); fp_int(op);
  switch (op) {
  case 0: case 1: {
    t = choose_u32s(n, TA, LEN(TA), "value"); t0 = copy_u32s(t, n);
    uint32_t target = TT[vf_choose(LEN(TT) - op, "target")], *o = vf_choose(2, "in place") ? t : vf_u32s(n);
    double total = 0, max = 0;
    for (int i = 0; i < n; i++) { total += t[i]; if (t[i] > max) max = t[i]; }
    note_u32s("in", t0, n);
    if (op) { if (total == 0 || total > 4294967295.0) vf_skip(); sp_times_scale_sum(t, n, target, o); } else { sp_times_scale_y(t, n, target, o); total = max; }
    for (int i = 0; i < n; i++) {
      double e = total ? t0[i] / total * target : 0;
      VF(fabs(o[i] - e) <= 0.5 + 1e-6, op ? "times_scale_sum" : "times_scale_y", "index %d: %u instead of %g", i, o[i], e);
      if (!op && max && t0[i] == max) VF(o[i] == target, "times_scale_y", "maximum is %u instead of %u", o[i], target);
    }
    if (o != t) same_u32s(t, t0, n, "input", "input");
    fp_add(o, 4 * n); break; }
  case 2: case 4: {
    s = choose_doubles(n, SA, LEN(SA), "value"); s0 = copy_doubles(s, n);
    double target = ST[vf_choose(LEN(ST), "target")], max = 0, f;
    for (int i = 0; i < n; i++) if (fabs(s[i]) > max) max = fabs(s[i]);
    note_doubles("in", s0, n);
    if (op == 2) sp_samples_scale_y(s, n, target); else sp_samples_set_gain(s, n, vf_choose(2, "zero gain") ? target = 0 : target);
    f = max && target ? target / max : 1;
    for (int i = 0; i < n; i++) EQ(s[i], s0[i] * f, op == 2 ? "samples_scale_y" : "set_gain", "scaled value");
    fp_doubles(s, n); break; }
  case 3: {
    s = choose_doubles(n, SA, LEN(SA), "value"); s0 = copy_doubles(s, n);
    int tg = vf_choose(LEN(ST) + 2, "target"); double target = tg < (int)LEN(ST) ? ST[tg] : tg == LEN(ST) ? -2.5 : 0.0004, total = 0, *o = vf_choose(2, "in place") ? s : vf_doubles(n);
    for (int i = 0; i < n; i++) total += s[i];
    if (total == 0) vf_skip();
    sp_samples_scale_sum(s, n, target, o);
    for (int i = 0; i < n; i++) EQ(o[i], s0[i] * target / total, "samples_scale_sum", "scaled value");
    if (o != s) same_doubles(s, s0, n, "input", "input");
    fp_doubles(o, n); break; }
  case 5: {
    int m = n > 2 ? 2 : n;
    double* ref = choose_doubles(n, SA, LEN(SA), "reference"); double* r0 = copy_doubles(ref, n);
    s = choose_doubles(n, SA, m == n ? LEN(SA) : 3, "value"); s0 = copy_doubles(s, n);
    double max = 0, target = 0, f;
    for (int i = 0; i < n; i++) { if (fabs(s[i]) > max) max = fabs(s[i]); if (fabs(ref[i]) > target) target = fabs(ref[i]); }
    sp_samples_set_unity_gain(s, ref, n);
    f = max && target ? target / max : 1;
    for (int i = 0; i < n; i++) EQ(s[i], s0[i] * f, "set_unity_gain", "scaled value");
    same_doubles(ref, r0, n, "input", "reference");
    fp_doubles(s, n); break; }
  case 6: {
    s = choose_doubles(n, SP, LEN(SP), "value");
    uint32_t* o = vf_u32s(n), *o2;
    sp_samples_to_times(s, n, o);
    for (int i = 0; i < n; i++) VF(o[i] == (uint32_t)floor(s[i] + 0.5), "samples_to_times", "%u for %g", o[i], s[i]);
    vf_track = 1;
    double* m; sp_samples_new(n, &m); memcpy(m, s, 8 * n);
    st = sp_samples_to_times_replace(m, n, &o2);
    vf_track = 0;
    VF(!st.id && vf_live() == 1, "replace", "status %d, %ld blocks", st.id, vf_live());
    same_u32s(o2, o, n, "replace", "samples_to_times_replace");
    fp_add(o, 4 * n); break; }
  case 7: {
    s = choose_doubles(n, SA, LEN(SA), "value"); s0 = copy_doubles(s, n);
    uint32_t max = (uint32_t[]){1, 3, 10, 1000, 40000003}[vf_choose(5, "max")], *o = vf_u32s(n);
    double lo = s[0], hi = s[0];
    for (int i = 0; i < n; i++) { if (s[i] < lo) lo = s[i]; if (s[i] > hi) hi = s[i]; }
    double add = lo < 0 ? -lo : 0;
    feclearexcept(FE_ALL_EXCEPT);
    sp_samples_scale_to_times(s, n, max, o);
    VF(!fetestexcept(FE_INVALID), "scale_to_times_undefined", "an undefined value is calculated or converted");
    for (int i = 0; i < n; i++) {
      /* values without any range stay at zero */
      double e = hi + add ? (s0[i] + add) * max / (hi + add) : 0;
      VF(fabs(o[i] - e) <= 0.5 + 1e-6 && o[i] <= max, "scale_to_times", "index %d: %u instead of %g", i, o[i], e);
    }
    same_doubles(s, s0, n, "input", "input");
    fp_add(o, 4 * n); break; }
  case 8: {
    t = choose_u32s(n, TA, LEN(TA), "value");
    uint32_t e = 0;
    for (int i = 0; i < n; i++) e += t[i];
    VF(sp_times_sum(t, n) == e && sp_time_sum(t, n) == e, "times_sum", "sum is not %u", e);
    VF(sp_times_sum(t, 0) == 0, "times_sum", "sum of nothing");
    fp_int(e); break; }
  case 9: {
    n += 1;
    s = choose_doubles(n, BIG, LEN(BIG), "value");
    long double e = 0;
    for (int i = 0; i < n; i++) e += s[i];
    double r = sp_samples_sum(s, n);
    VF(fabsl(r - e) <= 1e-15 * fabsl(e), "samples_sum", "sum %.17g instead of %.17Lg", r, e);
    double* b = copy_doubles(s, n);
    int k = choose_index(n, "changed"); double d = vf_choose(3, "difference") * 0.5;
    if (fabs(b[k]) > 10) d *= 100;
    b[k] += d;
    VF(sp_samples_nearly_equal(s, n, b, n, 0.25) == (d == 0), "nearly_equal", "difference %g", d);
    VF(!sp_samples_nearly_equal(s, n, b, n - 1, 0.25), "nearly_equal", "different sizes");
    VF(sp_sample_nearly_equal(s[k], b[k], 0.75) == (d < 0.75), "nearly_equal", "difference %g", d);
    VF(sp_sample_nearly_equal(b[k], s[k], 0.75) == (d < 0.75), "nearly_equal", "difference %g", d);
    float fs[n + 1]; for (int i = 0; i < n; i++) fs[i] = s[i] > 10 || s[i] < -10 ? s[i] / 1e16 * 1e8 : s[i];
    double ef = 0; for (int i = 0; i < n; i++) ef += fs[i];
    float rf = sph_f32_sum(fs, n);
    VF(fabs(rf - ef) <= 1e-6 * fabs(ef), "f32_sum", "sum %.9g instead of %.9g", rf, ef);
    float fb[n + 1]; for (int i = 0; i < n; i++) fb[i] = fs[i]; fb[k] += fabs(fs[k]) > 10 ? d * 1e8 : d;
    VF(sph_f32_nearly_equal(fs[k], fb[k], 0.75) == (d < 0.75) && sph_f32_nearly_equal(fb[k], fs[k], 0.75) == (d < 0.75), "f32_nearly_equal", "difference %g", d);
    VF(sph_f32_array_nearly_equal(fs, n, fb, n, 0.25) == (d == 0) && !sph_f32_array_nearly_equal(fs, n, fb, n - 1, 0.25), "f32_nearly_equal", "arrays with difference %g", d);
    fp_double(r); break; }
  }
  fp_done();
}
