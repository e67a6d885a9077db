#define HUGE_SIZES
#include "common.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
static const uint32_t TA[] = {0, 1, 2, 5, 70001}, TN[] = {0, 1, 2, 3, 5, 6, 64, 65, 70000, 70001, 70002};
static const double SA[] = {0, 1, -1, -2.5};
void vf_body(void) {
  int op = vf_choose(13, "operation"), n = choose_size(op == 4 || op == 5 || op == 8 ? 0 : 1, vf_bound(4, 5), "size");
  uint32_t *t = 0, *t0 = 0, *o; double *s = 0, *s0 = 0;
  fp_reset(); fp_int(op);
  if (op <= 9) { t = choose_u32s(n, TA, LEN(TA), "value"); t0 = copy_u32s(t, n); note_u32s("in", t, n); }
  switch (op) {
  case 0: {
    int i = choose_index(n, "index"), c = choose_index(n - i + 1, "count");
    o = vf_u32s(n - c);
    sp_times_remove(t, n, i, c, o);
    for (int k = 0; k < n - c; k++) VF(o[k] == t0[k < i ? k : k + c], "remove", "size %d index %d count %d: element %d is %u", n, i, c, k, o[k]);
    fp_add(o, 4 * (n - c)); break; }
  case 1: {
    int i = choose_index(n + 1, "index"), c = vf_choose(9, "count");
    if (c > 4) c = (int[]){16, 17, 33, 64}[c - 5]; else if (c == 4) c = n == 3 ? 66003 : 320;
    o = vf_u32s(n + c);
    sp_times_insert_space(t, n, i, c, o);
    for (int k = 0; k < n; k++) VF(o[k < i ? k : k + c] == t0[k], "insert_space", "size %d index %d count %d: element %d", n, i, c, k);
    fp_int(i); fp_add(t, 4 * n); break; }
  case 2: {
    if (n < 2) vf_skip();
    int i = choose_index(n - 1, "index"), c = vf_choose(9, "count");
    uint32_t scale = (uint32_t[]){1, 12, 6006}[vf_choose(3, "scale")];
    if (c > 4) c = (int[]){16, 17, 33, 64}[c - 5]; else if (c == 4) c = n == 3 ? 66003 : 5004;
    for (int k = 0; k < n; k++) { t[k] *= scale; t0[k] *= scale; }
    if (t[i + 1] <= t[i]) vf_skip();
    o = vf_u32s(n + c);
    sp_times_subdivide_difference(t, n, i, c, o);
    for (int k = 0; k < n + c; k++) {
      uint32_t e = k <= i ? t0[k] : k <= i + c ? t0[i] + (k - i) * ((t0[i + 1] - t0[i]) / (c + 1)) : t0[k - c];
      VF(o[k] == e, "subdivide", "size %d index %d count %d: element %d is %u instead of %u", n, i, c, k, o[k], e);
    }
    fp_add(o, 4 * (n + c)); break; }
  case 3: {
    int c = vf_range(0, 4, "count"), many = c == 4;
    if (many) c = n == 3 ? 66003 : 5004;
    uint32_t* ix = vf_u32s(c);
    int in_place = vf_choose(2, "in place"), ascending = 1;
    for (int k = 0; k < c; k++) { ix[k] = many ? k * 7 % n : choose_index(n, "index"); if (ix[k] < k) ascending = 0; }
    uint32_t* ix0 = copy_u32s(ix, c);
    if (in_place && (!ascending || c > n)) vf_skip();
    o = in_place ? t : vf_u32s(c);
    sp_times_select(t, ix, c, o);
    for (int k = 0; k < c; k++) VF(o[k] == t0[ix0[k]], "select", "element %d is %u", k, o[k]);
    if (!in_place) same_u32s(t, t0, n, "input", "input");
    same_u32s(ix, ix0, c, "input", "indices");
    fp_add(o, 4 * c); break; }
  case 4: {
    uint32_t v = TN[vf_choose(LEN(TN), "limit")], size = 77, k = 0;
    uint32_t e[HUGE_SIZE];
    for (int i = 0; i < n; i++) if (t0[i] > v) e[k++] = i;
    o = vf_choose(2, "in place") ? t : vf_u32s(k);
    sp_times_gt_indices(t, n, v, o, &size);
    VF(size == k, "gt_indices", "size %u instead of %u", size, k);
    same_u32s(o, e, k, "gt_indices", "indices");
    fp_add(o, 4 * k); break; }
  case 5: {
    uint32_t lo = TN[vf_choose(LEN(TN), "min")], hi = TN[vf_choose(LEN(TN), "max")], size = 77, k = 0, e[HUGE_SIZE];
    for (int i = 0; i < n; i++) if (t0[i] >= lo && t0[i] <= hi) e[k++] = t0[i];
    o = vf_u32s(k);
    sp_times_extract_in_range(t, n, lo, hi, o, &size);
    VF(size == k, "extract", "size %u instead of %u", size, k);
    same_u32s(o, e, k, "extract", "values");
    same_u32s(t, t0, n, "input", "input");
    fp_add(o, 4 * k); break; }
  case 6: {
    if (n == 1) {
      /* the only different element at every position */
      uint32_t m = (uint32_t[]){67, 1100}[vf_choose(2, "length")], *b = vf_u32s(m);
      double* d = vf_doubles(m);
      for (uint32_t i = 0; i < m; i++) { b[i] = 1000; d[i] = -1000; }
      for (uint32_t i = 0; i < m; i++) {
        b[i] = 7; d[i] = -1000.5;
        VF(sp_times_min(b, m) == 7 && sp_times_max(b, m) == 1000 && sp_times_absolute_max(b, m) == 1000, "min", "minimum at %u of %u", i, m);
        VF(sp_samples_min(d, m) == -1000.5 && sp_samples_max(d, m) == -1000 && sp_samples_absolute_max(d, m) == 1000.5, "min", "minimum at %u of %u", i, m);
        VF(!sp_times_equal(b, m, 1000) && !sp_samples_equal(d, m, -1000), "equal", "the element at %u of %u differs", i, m);
        VF(sp_times_contains(b, m, 7), "contains", "the element at %u of %u is not found", i, m);
        b[i] = 1001; d[i] = -7;
        VF(sp_times_min(b, m) == 1000 && sp_times_max(b, m) == 1001 && sp_times_absolute_max(b, m) == 1001, "max", "maximum at %u of %u", i, m);
        VF(sp_samples_min(d, m) == -1000 && sp_samples_max(d, m) == -7 && sp_samples_absolute_max(d, m) == 1000, "max", "maximum at %u of %u", i, m);
        b[i] = 1000; d[i] = -1000;
      }
    }
    uint32_t lo = ~0u, hi = 0;
    for (int i = 0; i < n; i++) { if (t[i] < lo) lo = t[i]; if (t[i] > hi) hi = t[i]; }
    VF(sp_times_min(t, n) == lo, "min", "minimum"); VF(sp_times_max(t, n) == hi, "max", "maximum"); VF(sp_times_absolute_max(t, n) == hi, "absolute_max", "absolute maximum");
    same_u32s(t, t0, n, "input", "input");
    fp_int(lo); fp_int(hi); break; }
  case 7: {
    int a = choose_index(n + 1, "start"), b = a + choose_index(n - a + 1, "end");
    o = vf_u32s(b - a);
    sp_times_range(t, a, b, o);
    same_u32s(o, t0 + a, b - a, "range", "range");
    s = vf_doubles(n); s0 = vf_doubles(b - a);
    for (int i = 0; i < n; i++) s[i] = t[i] - 1.5;
    sp_samples_range(s, a, b, s0);
    same_doubles(s0, s + a, b - a, "range", "samples range");
    fp_add(o, 4 * (b - a)); break; }
  case 8: {
    uint32_t v = TN[vf_choose(LEN(TN), "needle")]; int c = 0, e = 1;
    for (int i = 0; i < n; i++) { c |= t[i] == v; e &= t[i] == v; }
    VF(!!sp_times_contains(t, n, v) == c, "contains", "contains %u is %d", v, !c);
    VF(!!sp_times_equal(t, n, v) == e, "equal", "all equal %u is %d", v, !e);
    s = vf_doubles(n);
    for (int i = 0; i < n; i++) s[i] = t[i];
    VF(!!sp_samples_equal(s, n, v) == e, "equal", "all samples equal %u is %d", v, !e);
    fp_int(c * 2 + e); break; }
  case 9: {
    /* every bit position */
    int bits = n >= 10 ? 255 + vf_choose(48, "bits") : vf_range(0, n >= large_from ? 32 * n : 32 * n < 40 ? 32 * n : 40, "bits");
    if (n >= 10 && bits > 300) bits = bits == 301 ? 32 * n : 32 * n - 31;
    int words = (bits + 31) / 32;
    if (vf_choose(2, "high bits")) for (int i = 0; i < n; i++) t0[i] = t[i] = t[i] * 0x9e3779b9u + 0x80000001u;
    int in_place = vf_choose(2, "in place");
    o = vf_u32s(bits > words ? bits : words);
    uint32_t* in = in_place ? o : t;
    for (int i = 0; i < words; i++) in[i] = t0[i];
    sp_times_bits_to_times(in, bits, o);
    for (int i = 0; i < bits; i++) VF(o[i] == ((t0[i / 32] >> (i % 32)) & 1), "bits", "bit %d of %d is %u", i, bits, o[i]);
    fp_add(o, 4 * bits); break; }
  case 10: {
    s = choose_doubles(n, SA, LEN(SA), "value"); s0 = copy_doubles(s, n);
    double lo = s[0], hi = s[0], m = 0;
    for (int i = 0; i < n; i++) { if (s[i] < lo) lo = s[i]; if (s[i] > hi) hi = s[i]; if (fabs(s[i]) > m) m = fabs(s[i]); }
    VF(sp_samples_min(s, n) == lo, "min", "minimum"); VF(sp_samples_max(s, n) == hi, "max", "maximum"); VF(sp_samples_absolute_max(s, n) == m, "absolute_max", "absolute maximum %g", m);
    same_doubles(s, s0, n, "input", "input");
    fp_double(lo); fp_double(hi); break; }
  case 11: {
    uint32_t a = vf_choose(200, "value"), b = vf_range(1, 12, "base");
    uint32_t e = a ? (uint32_t)floor(a / (double)b + 0.5) * b : b;
    VF(sp_time_round_to_multiple(a, b) == e, "round_to_multiple", "%u to a multiple of %u: %u", a, b, sp_time_round_to_multiple(a, b));
    double x = a / 8.0, y = b / 4.0, ey = a ? floor(x / y + 0.5) * y : y;
    EQ(sp_sample_round_to_multiple(x, y), ey, "round_to_multiple", "sample to multiple");
    fp_int(e); break; }
  case 12: {
    double x = vf_choose(7, "a") / 2.0 - 1.5, y = vf_choose(7, "b") / 2.0 - 1.5;
    uint32_t p = vf_choose(7, "a"), q = vf_choose(7, "b");
    VF(sp_sample_max(x, y) == (x > y ? x : y) && sp_sample_min(x, y) == (x > y ? y : x), "max", "sample max or min of %g %g", x, y);
    VF(sp_time_max(p, q) == (p > q ? p : q) && sp_time_min(p, q) == (p > q ? q : p), "max", "time max or min of %u %u", p, q);
    fp_int(p); fp_int(q); break; }
  }
  fp_done();
}
