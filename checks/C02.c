#include "common.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
typedef struct { uint8_t len, kind; uint8_t pad[3]; } arguments_t;
/* records of the largest size, for responses of length 4, have the variant at their end */
enum { LAST = 254 };
static int ir_calls, ir_fails;
static double coefficient(int kind, int i) { return (kind + 1) * 100 + 10 * i + 1; }
static status_t make_ir(void* arguments, sp_sample_t** ir, sp_time_t* len, int f) {
  arguments_t* a = arguments;
  status_t s;
  int kind = a->len == 4 ? ((uint8_t*)a)[LAST] : a->kind;
  s.id = 0; s.group = (uint8_t*)"test";
  ir_calls++;
  if (ir_fails) { s.id = 55; return s; }
  *ir = malloc(a->len * sizeof **ir);
  if (!*ir) { s.id = 56; return s; }
  for (int i = 0; i < a->len; i++) (*ir)[i] = coefficient(kind + 3 * f, i);
  *len = a->len;
  return s;
}
static status_t ir_f0(void* a, sp_sample_t** ir, sp_time_t* len) { return make_ir(a, ir, len, 0); }
static status_t ir_f1(void* a, sp_sample_t** ir, sp_time_t* len) { return make_ir(a, ir, len, 1); }
/* the windowed sinc filters, where any single argument can change from call to call */
static void filters(void) {
  static const double base[4] = {0.1, 0.3, 0.25, 0.25}, other[4] = {0.15, 0.4, 0.4, 0.4};
  int band = vf_choose(2, "band"), calls = vf_range(2, vf_bound(3, 4), "calls"), pos = 0;
  sp_convolution_filter_state_t* state = 0;
  static double y[512];
  memset(y, 0, sizeof y);
  fp_reset();
  for (int k = 0; k < calls; k++) {
    int a = vf_choose(band ? 7 : 5, "changed argument"), n = (int[]){1, 5, 64}[vf_choose(vf_bound(3, 2), "samples")], type = a == (band ? 5 : 3);
    double v[4];
    for (int i = 0; i < 4; i++) v[i] = a == i + 1 && a <= (band ? 4 : 2) ? other[i] : base[i];
    if (a == (band ? 6 : 4)) { v[0] = 0.0003; if (band) v[1] = 0.0008; }
    double *in = vf_doubles(n), *out = vf_doubles(n), *ir;
    sp_time_t len;
    status_t s, r;
    for (int i = 0; i < n; i++) in[i] = 1 + (pos + i) * (pos + i) % 7;
    vf_track = 1;
    if (band) {
      s = sp_windowed_sinc_bp_br(in, n, v[0], v[1], v[2], v[3], type, &state, out);
      r = sp_windowed_sinc_bp_br_ir(v[0], v[1], v[2], v[3], type, &ir, &len);
    } else {
      s = sp_windowed_sinc_lp_hp(in, n, v[0], v[1], type, &state, out);
      r = sp_windowed_sinc_lp_hp_ir(v[0], v[1], type, &ir, &len);
    }
    vf_track = 0;
    vf_op();
    VF(!s.id && !r.id, "status", "status %d %d", s.id, r.id);
    for (int i = 0; i < n; i++) for (sp_time_t j = 0; j < len; j++) if (pos + i + j < 512) y[pos + i + j] += in[i] * ir[j];
    for (int i = 0; i < n; i++) {
      VF(vf_close(out[i], y[pos + i]), "samples", "sample %d of call %d is %.9g instead of %.9g with the response for the latest arguments", i, k, out[i], y[pos + i]);
      fp_double(out[i]);
    }
    pos += n;
    vf_track = 1; free(ir); vf_track = 0;
  }
  vf_track = 1;
  sp_convolution_filter_state_free(state);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks are not freed", vf_live());
  fp_done();
}
/* larger responses and segments with a change of the response from call to call */
typedef struct { uint32_t len, kind; } large_arguments_t;
static double large_coefficient(uint32_t kind, uint32_t i) { return (double)((i * (7 + kind) + kind) % 11) - 4; }
static status_t large_ir(void* arguments, sp_sample_t** ir, sp_time_t* len) {
  large_arguments_t* a = arguments;
  status_t s;
  s.id = 0; s.group = (uint8_t*)"test";
  ir_calls++;
  *ir = malloc(a->len * sizeof **ir);
  if (!*ir) { s.id = 56; return s; }
  for (uint32_t i = 0; i < a->len; i++) (*ir)[i] = large_coefficient(a->kind, i);
  *len = a->len;
  return s;
}
static void large(void) {
  static const uint32_t LEN[] = {1, 41, 301, 5003, 66003}, SIZE[] = {1, 64, 305, 66003};
  enum { CALLS = 3, TOTAL = 3 * 66003 + 66003 };
  static double y[TOTAL], x[TOTAL];
  sp_convolution_filter_state_t* state = 0;
  uint32_t pos = 0;
  memset(y, 0, sizeof y);
  fp_reset();
  for (int k = 0; k < CALLS; k++) {
    int l = vf_choose(5, "length"), z = vf_choose(4, "samples");
    /* the product decides about the cost */
    if ((l == 4 && z > 1) || (l == 3 && z == 3) || (z == 3 && l > 1)) vf_skip();
    large_arguments_t* r = vf_mem(sizeof *r);
    r->len = LEN[l]; r->kind = vf_bound(0, 1) ? vf_choose(2, "kind") : k % 2;
    uint32_t n = SIZE[z], len = r->len, kind = r->kind;
    double *in = vf_doubles(n), *out = vf_doubles(n);
    for (uint32_t i = 0; i < n; i++) in[i] = x[pos + i] = (double)((pos + i) * 3 % 13) - 5;
    vf_track = 1;
    status_t s = sp_convolution_filter(in, n, large_ir, r, sizeof *r, &state, out);
    vf_track = 0;
    vf_op();
    VF(!s.id, "status", "status %d", s.id);
    vf_note(" %u samples with a response of %u;", n, len);
    /* the tail is only needed as far as later calls reach */
    for (uint32_t i = 0; i < n; i++) for (uint32_t j = 0; j < len; j++) y[pos + i + j] += x[pos + i] * large_coefficient(kind, j);
    for (uint32_t i = 0; i < n; i++) VF(vf_close(out[i], y[pos + i]), "samples", "sample %u of call %d is %g instead of %g", i, k, out[i], y[pos + i]);
    fp_double(out[n - 1]); fp_int(len); fp_int(n);
    memset(r, 0xee, sizeof *r);
    pos += n;
    }
  vf_track = 1;
  sp_convolution_filter_state_free(state);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks are not freed", vf_live());
  fp_done();
}
void vf_body(void) {
  int part = vf_choose(3, "part");
  if (part == 1) { filters(); return; }
  if (part == 2) { large(); return; }
  sp_convolution_filter_state_t* state = 0;
  int faults = vf_choose(2, "faults"), depth = vf_range(1, faults ? vf_bound(3, 4) : vf_bound(4, 5), "calls"), pos = 0, fault_at = faults ? vf_choose(depth, "failing call") : -1;
  int last_f = -1, last_len = 0, last_kind = 0, last_args = 0;
  static double y[256], x[256];
  memset(y, 0, sizeof y);
  fp_reset();
  for (int k = 0; k < depth; k++) {
    /* arguments: response length, variant of coefficients, function, size of the argument record */
    static const struct { uint8_t len, kind, f, size; } args[] = {{3, 0, 0, 2}, {1, 0, 0, 2}, {3, 1, 0, 2}, {5, 0, 0, 2}, {3, 0, 1, 2}, {2, 0, 0, 3}, {4, 0, 0, 255}, {4, 1, 0, 255}};
    int a = vf_choose(8, "arguments"), n = 1 + vf_choose(depth > 3 ? 3 : 4, "samples");
    if (n == 4) n = 6; else if (n == 3) n = 4;
    arguments_t* r = vf_mem(args[a].size);
    memset(r, 0, args[a].size);
    r->len = args[a].len;
    if (r->len == 4) ((uint8_t*)r)[LAST] = args[a].kind; else r->kind = args[a].kind;
    double *in = vf_doubles(n), *out = vf_doubles(n);
    for (int i = 0; i < n; i++) in[i] = x[pos + i] = 1 + (pos + i) * (pos + i) % 7;
    int changed = !state || last_f != args[a].f || last_len != r->len || last_kind != args[a].kind || last_args != args[a].size;
    ir_calls = 0; ir_fails = 0;
    int fault = 0;
    if (k == fault_at) {
      fault = vf_choose(6, "fault");
      if (fault == 0) ir_fails = 1; else vf_fail_at = fault;
    }
    vf_alloc_count = 0;
    sp_convolution_filter_state_t* before = state;
    double* copy = copy_doubles(in, n);
    vf_track = 1;
    status_t s = sp_convolution_filter(in, n, args[a].f ? ir_f1 : ir_f0, r, args[a].size, &state, out);
    vf_track = 0;
    vf_op();
    same_doubles(in, copy, n, "input", "input");
    int failed = (ir_fails && ir_calls) || vf_fail_count;
    vf_note(" arguments %d, %d samples%s;", a, n, failed ? ", failing" : "");
    memset(r, 0xee, args[a].size); /* arguments do not need to stay valid */
    VF(ir_calls == changed, "calculated", "the response is calculated %d times for %s arguments", ir_calls, changed ? "changed" : "unchanged");
    if (failed) {
      VF(s.id, "failure", "success after a failure");
      VF(!ir_fails || s.id == 55, "failure_status", "status %d instead of the status of the response function", s.id);
      VF(state == before, "failure_state", "a failed call changes the state pointer");
      if (!state) VF(!vf_live(), "leak", "%ld blocks after a failure", vf_live());
      vf_fail_count = 0; vf_fail_at = 0;
      continue;
    }
    vf_fail_at = 0;
    VF(!s.id && state, "status", "status %d", s.id);
    last_f = args[a].f; last_len = args[a].len; last_kind = args[a].kind; last_args = args[a].size;
    for (int i = 0; i < n; i++) for (int j = 0; j < last_len; j++) y[pos + i + j] += x[pos + i] * coefficient(last_kind + 3 * last_f, j);
    for (int i = 0; i < n; i++) { VF(vf_close(out[i], y[pos + i]), "samples", "sample %d of call %d is %g instead of %g", i, k, out[i], y[pos + i]); fp_double(out[i]); }
    pos += n;
  }
  vf_track = 1;
  sp_convolution_filter_state_free(state);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks are not freed", vf_live());
  fp_done();
}
