#define HUGE_SIZES
#include "common.h"
/* elementwise array operations against per-element definitions */
void vf_init(void) { sp_initialize(1, 2, 8); }
#define RU(name) static uint32_t ref_##name(uint32_t a, uint32_t b, uint32_t l)
#define RS(name) static double ref_s##name(double a, double b, double l)
/* the first values are used for all lengths, the others for up to two elements and for scalars */
static const uint32_t TA[] = {0, 1, 2, 7, 4294967295u, 960, 70001}, TL[] = {0, 2, 7, 1001};
static const double SA[] = {0, 1, -1, 0.5, -2.5, 1000.25, -70001.5}, SL[] = {0, 1, -1, 1000.5, 0.0004};
enum { ADD, SUB, MUL, DIV, SET, ADDV, SUBV, MULV, DIVV, AND, OR, XOR, SQUARE, COPY, CUSUM, ADDITIONS, LIMIT, BLEND, MASK, MULTIPLICATIONS, DIVISIONS, TO, DUPLICATE, CONSTANT, SCALE, DIFFERENCES, LIMIT_MAX, OPS };
static const double FR[] = {0, 0.25, 0.5, 1, 0.0005};
static void times(int op, int n) {
  uint32_t *a, *b, *e = vf_u32s(n), *out = vf_u32s(n), v, l;
  double *c;
  status_t s;
  int binary = (op >= ADDV && op <= XOR) || op == BLEND || op == MASK;
  int an = n <= 2 ? 7 : binary ? 4 : 5;
  const uint32_t* al = op == BLEND || op == MASK || op == SCALE ? (const uint32_t[]){0, 1, 2, 7, 960, 5003, 70001} : TA;
  int has_in = op != ADDITIONS && op != MULTIPLICATIONS && op != DIVISIONS && op != CONSTANT;
  a = choose_u32s(has_in ? n : 0, al, an, "a");
  b = choose_u32s(binary ? n : 0, al, an, "b");
  uint32_t *a0 = copy_u32s(a, has_in ? n : 0), *b0 = copy_u32s(b, binary ? n : 0);
  v = op <= SET || op == LIMIT ? TA[vf_choose(7, "value")] : 0;
  l = op >= AND && op <= XOR ? TL[vf_choose(4, "limit")] : 0;
  switch (op) {
  case ADD: sp_times_add(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] + v; out = a; break;
  case SUB: sp_times_subtract(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] > v ? a0[i] - v : 0; out = a; break;
  case MUL: sp_times_multiply(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] * v; out = a; break;
  case DIV: if (!v) vf_skip(); sp_times_divide(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] / v; out = a; break;
  case SET: if (!v && vf_choose(2, "zero")) sp_times_zero(a, n); else sp_times_set(a, n, v); for (int i = 0; i < n; i++) e[i] = v; out = a; break;
  case ADDV: sp_times_add_times(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] + b0[i]; out = a; break;
  case SUBV: sp_times_subtract_times(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] > b0[i] ? a0[i] - b0[i] : 0; out = a; break;
  case MULV: sp_times_multiply_times(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] * b0[i]; out = a; break;
  case DIVV: for (int i = 0; i < n; i++) if (!b[i]) { if (n < large_from) vf_skip(); b[i] = b0[i] = 3; }
    sp_times_divide_times(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] / b0[i]; out = a; break;
  case AND: sp_times_and_times(a, b, n, l, out); for (int i = 0; i < n; i++) e[i] = a0[i] >= l && b0[i] >= l ? b0[i] : 0; break;
  case OR: sp_times_or_times(a, b, n, l, out); for (int i = 0; i < n; i++) e[i] = a0[i] < l && b0[i] >= l ? b0[i] : a0[i]; break;
  case XOR: sp_times_xor_times(a, b, n, l, out); for (int i = 0; i < n; i++) e[i] = a0[i] >= l && b0[i] >= l ? 0 : a0[i] < l && b0[i] >= l ? b0[i] : a0[i]; break;
  case SQUARE: sp_times_square(a, n); for (int i = 0; i < n; i++) e[i] = a0[i] * a0[i]; out = a; break;
  case COPY: sp_times_copy(a, n, out); for (int i = 0; i < n; i++) e[i] = a0[i]; break;
  case CUSUM: if (!n) vf_skip(); sp_times_cusum(a, n, out); v = 0; for (int i = 0; i < n; i++) e[i] = v += a0[i]; break;
  case ADDITIONS: { uint32_t s0 = TA[vf_choose(7, "start")], d = TA[vf_choose(7, "summand")]; sp_times_additions(s0, d, n, out); for (int i = 0; i < n; i++) e[i] = s0 + d * i; break; }
  case LIMIT: sp_times_limit(a, n, v, out); for (int i = 0; i < n; i++) e[i] = a0[i] > v ? v : a0[i]; break;
  case BLEND: case MASK: {
    double f = 0;
    c = 0;
    if (op == BLEND) { f = FR[vf_choose(LEN(FR), "fraction")]; sp_times_blend(a, b, f, n, out); }
    else { c = choose_doubles(n, FR, 4, "coefficient"); sp_times_mask(a, b, c, n, out); }
    for (int i = 0; i < n; i++) e[i] = (uint32_t)floor((1 - (c ? c[i] : f)) * a0[i] + (c ? c[i] : f) * b0[i] + 0.5);
    break; }
  case MULTIPLICATIONS: { uint32_t s0 = TA[vf_choose(7, "start")], d = TA[vf_choose(7, "factor")]; sp_times_multiplications(s0, d, n, out); for (int i = 0; i < n; i++, s0 *= d) e[i] = s0; break; }
  case TO: { double* o = vf_doubles(n), *oe = vf_doubles(n); sp_times_to_samples(a, n, o); for (int i = 0; i < n; i++) oe[i] = a0[i]; same_doubles(o, oe, n, "to_samples", "times to samples");
    vf_track = 1; uint32_t* m; sp_times_new(n, &m); if (n) memcpy(m, a0, 4 * n); double* r; s = sp_times_to_samples_replace(m, n, &r); vf_track = 0;
    VF(!s.id && vf_live() == 1, "replace", "times_to_samples_replace status %d, %ld blocks", s.id, vf_live()); same_doubles(r, oe, n, "to_samples", "times_to_samples_replace"); return; }
  case DUPLICATE: { vf_track = 1; uint32_t* r; s = sp_times_duplicate(a, n, &r); vf_track = 0; VF(!s.id && r != a && vf_live() == 1, "duplicate", "status %d", s.id); same_u32s(r, a0, n, "duplicate", "times duplicate"); same_u32s(a, a0, n, "duplicate", "input"); return; }
  case CONSTANT: { v = TA[vf_choose(7, "value")]; vf_track = 1; uint32_t* r; s = sp_times_constant(n, v, &r); vf_track = 0; VF(!s.id && vf_live() == 1, "constant", "status %d", s.id); for (int i = 0; i < n; i++) VF(r[i] == v, "constant", "index %d is %u instead of %u", i, r[i], v); return; }
  case SCALE: { if (n < 1) vf_skip(); uint32_t f = 1 + vf_choose(n < 10 ? 6 : 3, "factor"); f = f == 4 ? 5003 : f == 5 ? 64 : f == 6 ? 33 : f; int on = (n - 1) * f; out = vf_u32s(on); e = vf_u32s(on);
    vf_track = 1; s = sp_times_scale(a, n, f, out); vf_track = 0; VF(!s.id && !vf_live(), "scale", "status %d, %ld blocks", s.id, vf_live());
    for (int i = 0; i < on; i++) { double t = (i % f) / (double)f; e[i] = (uint32_t)floor((1 - t) * (a0[i / f] * f) + t * (a0[i / f + 1] * f) + 0.5); }
    same_u32s(out, e, on, "scale", "scale"); same_u32s(a, a0, n, "scale", "input"); vf_state(out, on * 4); return; }
  default: vf_skip();
  }
  note_u32s("in", a0, has_in ? n : 0);
  same_u32s(out, e, n, "times", "result");
  if (binary) same_u32s(b, b0, n, "input", "second input");
  if (has_in && out != a) same_u32s(a, a0, n, "input", "first input");
  fp_reset(); fp_int(op); fp_add(out, n * 4); fp_done();
}
static void samples(int op, int n) {
  double *a, *b, *e = vf_doubles(n), *out = vf_doubles(n), v, l;
  status_t s;
  int binary = (op >= ADDV && op <= XOR) || op == BLEND;
  int an = n <= 2 ? 7 : binary ? 4 : 5;
  int has_in = op != ADDITIONS && op != MULTIPLICATIONS && op != DIVISIONS && op != CONSTANT;
  a = choose_doubles(has_in ? n : 0, SA, an, "a");
  b = choose_doubles(binary ? n : 0, SA, an, "b");
  double *a0 = copy_doubles(a, has_in ? n : 0), *b0 = copy_doubles(b, binary ? n : 0);
  int vi = op <= SET || op == LIMIT ? vf_choose(8, "value") : 0;
  v = op <= SET || op == LIMIT ? vi < 7 ? SA[vi] : 0.0004 : 0;
  l = op >= AND && op <= XOR ? SL[vf_choose(5, "limit")] : 0;
  switch (op) {
  case ADD: sp_samples_add(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] + v; out = a; break;
  case SUB: sp_samples_subtract(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] - v; out = a; break;
  case MUL: sp_samples_multiply(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] * v; out = a; break;
  case DIV: if (v == 0) vf_skip(); sp_samples_divide(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] / v; out = a; break;
  case SET: if (!v && vf_choose(2, "zero")) sp_samples_zero(a, n); else sp_samples_set(a, n, v); for (int i = 0; i < n; i++) e[i] = v; out = a; break;
  case ADDV: sp_samples_add_samples(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] + b0[i]; out = a; break;
  case SUBV: sp_samples_subtract_samples(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] - b0[i]; out = a; break;
  case MULV: sp_samples_multiply_samples(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] * b0[i]; out = a; break;
  case DIVV: for (int i = 0; i < n; i++) if (b[i] == 0) { if (n < large_from) vf_skip(); b[i] = b0[i] = 3; }
    sp_samples_divide_samples(a, n, b); for (int i = 0; i < n; i++) e[i] = a0[i] / b0[i]; out = a; break;
  case AND: sp_samples_and_samples(a, b, n, l, out); for (int i = 0; i < n; i++) e[i] = a0[i] >= l && b0[i] >= l ? b0[i] : 0; break;
  case OR: sp_samples_or_samples(a, b, n, l, out); for (int i = 0; i < n; i++) e[i] = a0[i] < l && b0[i] >= l ? b0[i] : a0[i]; break;
  case XOR: sp_samples_xor_samples(a, b, n, l, out); for (int i = 0; i < n; i++) e[i] = a0[i] >= l && b0[i] >= l ? 0 : a0[i] < l && b0[i] >= l ? b0[i] : a0[i]; break;
  case SQUARE: sp_samples_square(a, n); for (int i = 0; i < n; i++) e[i] = a0[i] * a0[i]; out = a; break;
  case COPY: sp_samples_copy(a, n, out); for (int i = 0; i < n; i++) e[i] = a0[i]; break;
  case CUSUM: if (!n) vf_skip(); sp_samples_cusum(a, n, out); v = 0; for (int i = 0; i < n; i++) e[i] = v += a0[i]; break;
  case ADDITIONS: { double s0 = SA[vf_choose(7, "start")], d = SA[vf_choose(7, "summand")]; sp_samples_additions(s0, d, n, out); for (int i = 0; i < n; i++) e[i] = s0 + d * i; break; }
  case LIMIT: { double* o = vf_choose(2, "in place") ? a : out; sp_samples_limit_abs(a, n, v, o); out = o; v = fabs(v); for (int i = 0; i < n; i++) e[i] = a0[i] > v ? v : a0[i] < -v ? -v : a0[i]; break; }
  case BLEND: { double f = FR[vf_choose(LEN(FR), "fraction")]; sp_samples_blend(a, b, f, n, out); for (int i = 0; i < n; i++) e[i] = (1 - f) * a0[i] + f * b0[i]; break; }
  case DIVISIONS: { double s0 = SA[vf_choose(7, "start")], d = (double[]){0, 1, -1, 0.5, -2.5, 1000.25, -70001.5, 0.0005}[vf_choose(8, "divisor")]; if (d == 0) vf_skip(); sp_samples_divisions(s0, d, n, out); for (int i = 0; i < n; i++, s0 /= d) e[i] = s0; break; }
  case DUPLICATE: { vf_track = 1; double* r; s = sp_samples_duplicate(a, n, &r); vf_track = 0; VF(!s.id && r != a && vf_live() == 1, "duplicate", "status %d", s.id); same_doubles(r, a0, n, "duplicate", "samples duplicate"); same_doubles(a, a0, n, "duplicate", "input"); return; }
  case DIFFERENCES: { if (n < 2) vf_skip(); out = vf_doubles(n - 1); sp_samples_differences(a, n, out); e = vf_doubles(n - 1); for (int i = 0; i < n - 1; i++) e[i] = a0[i + 1] - a0[i]; same_doubles(a, a0, n, "input", "input"); a = out; n--; break; }
  case LIMIT_MAX: { v = SA[vf_choose(7, "value")]; sp_samples_limit(a, n, v); for (int i = 0; i < n; i++) e[i] = a0[i] > v ? v : a0[i]; out = a; break; }
  case TO: { sp_samples_to_units(a, n); for (int i = 0; i < n; i++) e[i] = (a0[i] + 1) / 2; out = a; break; }
  default: vf_skip();
  }
  note_doubles("in", a0, has_in ? n : 0);
  same_doubles(out, e, n, "samples", "result");
  if (binary) same_doubles(b, b0, n, "input", "second input");
  if (has_in && out != a) same_doubles(a, a0, n, "input", "first input");
  fp_reset(); fp_int(100 + op); fp_doubles(out, n); fp_done();
}
void vf_body(void) {
  int op = vf_choose(OPS, "operation"), t = vf_choose(2, "type"), n = choose_size(0, vf_bound(3, 4), "size");
  if (t) samples(op, n); else times(op, n);
}
