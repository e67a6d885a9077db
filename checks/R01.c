#include "common.h"
#include "rnd.h"
void vf_init(void) {}
static const uint64_t SEEDS[] = {0, 1, 2, 7, 100, 1557083953, 4294967295u, 0x8000000000000000ull, 0xffffffffffffffffull, 123456789012345ull};
static const uint64_t RANGES[] = {1, 2, 3, 7, 10, 65536, 1000003, 4294967295u, 4294967296ull, 0x8000000000000001ull, 0x4000000000000001ull, 0x3000000000000005ull, 0x5555555555555556ull, 0xc000000000000000ull, 0xffffffffffffffffull};
static const uint32_t RANGES32[] = {1, 2, 3, 7, 10, 65536, 1000003, 2147483649u, 4294967295u};
static const double FR[] = {1, 2, 0.5, 0, 100, -3, 0.1, 1e300, 0.0003};
#define N 3
/* the interface draws from the state of the library */
static void library(void) {
  uint64_t seed = SEEDS[vf_choose(LEN(SEEDS), "seed")];
  sp_random_state = sph_random_state_new(seed);
  ref_t r = ref_seed(seed);
  uint32_t w[1024]; double f[1024], e;
  fp_reset();
  for (int d = 0; d < 2; d++) {
    int op = vf_choose(13, "operation"), n = op < 6 ? 1 : (int[]){0, 1, 2, 300, 64, 1024}[vf_choose(6, "size")];
    uint32_t range = RANGES32[vf_choose(op == 1 || op == 7 ? LEN(RANGES32) : 1, "range")];
    double limit = FR[vf_choose(op == 3 || op == 9 || op == 11 ? LEN(FR) : 1, "range")];
    switch (op) {
    case 0: w[0] = sp_time_random(); break;
    case 1: w[0] = sp_time_random_bounded(range); break;
    case 2: f[0] = sp_sample_random(); break;
    case 3: f[0] = sp_sample_random_bounded(limit); break;
    case 4: f[0] = sp_unit_random(); break;
    case 5: w[0] = sp_time_random(); break;
    case 6: sp_times_random(n, w); break;
    case 7: sp_times_random_bounded(range, n, w); break;
    case 8: sp_samples_random(n, f); break;
    case 9: sp_samples_random_bounded(limit, n, f); break;
    case 10: sp_units_random(n, f); break;
    case 11: sp_units_random_bounded(limit, n, f); break;
    case 12: sp_noise(n, f); break;
    }
    vf_op();
    for (int i = 0; i < n; i++) switch (op) {
    case 0: case 5: case 6: VF(w[i] == ref_u64(&r) >> 32, "times", "operation %d index %d", op, i); break;
    case 1: case 7: VF(w[i] == ref_bounded(&r, range), "times_bounded", "operation %d index %d bounded by %u", op, i, range); break;
    case 2: case 8: case 12: e = 2 * ref_f64p(&r) - 1; VF(f[i] == e, "samples", "operation %d index %d is %g instead of %g", op, i, f[i], e); break;
    case 4: case 10: e = ref_f64p(&r); VF(f[i] == e, "units", "operation %d index %d is %g instead of %g", op, i, f[i], e); break;
    default: e = limit * ref_f64p(&r); VF(f[i] == e, "bounded", "operation %d index %d is %g instead of %g", op, i, f[i], e);
    }
    VF(!memcmp(&sp_random_state, &r, sizeof r), "state", "state after operation %d", op);
  }
  fp_add(&r, sizeof r); fp_done();
}
/* arrays of more than 2^16 elements */
static void large(void) {
  int n = 66003, op = vf_choose(9, "operation");
  uint64_t seed = SEEDS[vf_choose(3, "seed")];
  sp_random_state_t s = sph_random_state_new(seed);
  ref_t r = ref_seed(seed);
  sp_random_state = s;
  uint64_t* u = malloc(8 * n); uint32_t* w = malloc(4 * n); double* f = malloc(8 * n);
  switch (op) {
  case 0: sph_random_u64_array(&s, n, u); break;
  case 1: sph_random_u64_bounded_array(&s, RANGES[3], n, u); break;
  case 2: sph_random_u32_array(&s, n, w); break;
  case 3: sph_random_u32_bounded_array(&s, 1000003, n, w); break;
  case 4: sph_random_f64_array(&s, n, f); break;
  case 5: sph_random_f64_bounded_array(&s, 100, n, f); break;
  case 6: sph_random_f64_array_1to1(&s, n, f); break;
  case 7: sph_random_f64_array_0to1(&s, n, f); break;
  default: sp_samples_random(n, f); s = sp_random_state;
  }
  for (int k = 0; k < n; k++) {
    int ok;
    switch (op) {
    case 0: ok = u[k] == ref_u64(&r); break;
    case 1: ok = u[k] == ref_bounded(&r, RANGES[3]); break;
    case 2: ok = w[k] == ref_u64(&r) >> 32; break;
    case 3: ok = w[k] == ref_bounded(&r, 1000003); break;
    case 4: ok = f[k] == (ref_u64(&r) >> 11) * 0x1.0p-53; break;
    case 5: ok = f[k] == 100 * ref_f64p(&r); break;
    case 7: ok = f[k] == ref_f64p(&r); break;
    default: ok = f[k] == 2 * ref_f64p(&r) - 1;
    }
    VF(ok, "large", "array operation %d on %d elements: index %d", op, n, k);
  }
  VF(!memcmp(&s, &r, sizeof r), "state", "state after array operation %d on %d elements", op, n);
  free(u); free(w); free(f);
  fp_reset(); fp_add(&s, sizeof s); fp_done();
}
void vf_body(void) {
  switch (vf_choose(3, "kind")) { case 1: library(); return; case 2: large(); return; }
  uint64_t seed = SEEDS[vf_choose(LEN(SEEDS), "seed")];
  int warm = vf_choose(2, "library state");
  sp_random_state_t s = warm ? sp_random_state_new((sp_time_t)seed) : sph_random_state_new(seed);
  ref_t r = ref_seed(warm ? (uint32_t)seed : seed);
  if (warm) { ref_u64(&r); ref_u64(&r); }
  VF(!memcmp(&s, &r, sizeof r), "seed", "state of seed %llu", (unsigned long long)seed);
  int depth = vf_bound(2, 3);
  fp_reset();
  for (int d = 0; d < depth; d++) {
    int op = vf_choose(15, "operation");
    vf_op();
    uint64_t u[N], rg = 1; uint32_t w[N], rg32 = 1; double f[N], fr = 1;
    if (op == 1 || op == 6) rg = RANGES[vf_choose(LEN(RANGES), "range")];
    if (op == 3 || op == 8) rg32 = RANGES32[vf_choose(LEN(RANGES32), "range")];
    if (op == 5 || op == 10) fr = FR[vf_choose(LEN(FR), "range")];
    for (int i = 0; i < N; i++) {
      int array = op >= 6 && op != 11 && op != 12 ;
      if (i && array) break;
      switch (op) {
      case 0: u[0] = sph_random_u64(&s); VF(u[0] == ref_u64(&r), "u64", "u64"); fp_int(u[0]); break;
      case 1: u[0] = sph_random_u64_bounded(&s, rg); VF(u[0] < rg, "range", "bounded u64 outside of range"); VF(u[0] == ref_bounded(&r, rg), "u64_bounded", "u64 bounded by %llu", (unsigned long long)rg); break;
      case 2: w[0] = sph_random_u32(&s); VF(w[0] == ref_u64(&r) >> 32, "u32", "u32"); break;
      case 3: w[0] = sph_random_u32_bounded(&s, rg32); VF(w[0] < rg32, "range", "bounded u32 outside of range"); VF(w[0] == ref_bounded(&r, rg32), "u32_bounded", "u32 bounded by %u", rg32); break;
      case 4: f[0] = sph_random_f64(&s); VF(f[0] >= 0 && f[0] < 1 && f[0] == (ref_u64(&r) >> 11) * 0x1.0p-53, "f64", "f64 %.17g", f[0]); break;
      case 5: f[0] = sph_random_f64_bounded(&s, fr); VF(f[0] == fr * ref_f64p(&r), "f64_bounded", "f64 bounded by %g is %.17g", fr, f[0]); break;
      case 11: f[0] = sph_random_f64_1to1(&s); VF(f[0] >= -1 && f[0] < 1 && f[0] == 2 * ref_f64p(&r) - 1, "f64_1to1", "1to1 %.17g", f[0]); break;
      case 12: f[0] = sph_random_f64_0to1(&s); VF(f[0] >= 0 && f[0] < 1 && f[0] == ref_f64p(&r), "f64_0to1", "0to1 %.17g", f[0]); break;
      default: {
        int n = vf_choose(7, "size"); n = n < 4 ? n : n == 4 ? 300 : n == 5 ? 64 : 1024;
        uint64_t* ua = vf_mem(8 * n); uint32_t* wa = vf_u32s(n); double* fa = vf_doubles(n);
        if (op == 6) sph_random_u64_bounded_array(&s, rg, n, ua);
        if (op == 7) sph_random_u64_array(&s, n, ua);
        if (op == 8) sph_random_u32_bounded_array(&s, rg32, n, wa);
        if (op == 9) sph_random_u32_array(&s, n, wa);
        if (op == 10) sph_random_f64_bounded_array(&s, fr, n, fa);
        if (op == 13) sph_random_f64_array_1to1(&s, n, fa);
        if (op == 14) { if (vf_choose(2, "unit")) sph_random_f64_array_0to1(&s, n, fa); else { sph_random_f64_array(&s, n, fa); for (int k = 0; k < n; k++) VF(fa[k] == (ref_u64(&r) >> 11) * 0x1.0p-53, "f64_array", "f64 array"); break; } }
        for (int k = 0; k < n; k++) {
          if (op == 6) VF(ua[k] == ref_bounded(&r, rg), "u64_bounded_array", "index %d", k);
          if (op == 7) VF(ua[k] == ref_u64(&r), "u64_array", "index %d", k);
          if (op == 8) VF(wa[k] == ref_bounded(&r, rg32), "u32_bounded_array", "index %d", k);
          if (op == 9) VF(wa[k] == ref_u64(&r) >> 32, "u32_array", "index %d", k);
          if (op == 10) VF(fa[k] == fr * ref_f64p(&r), "f64_bounded_array", "index %d", k);
          if (op == 13) VF(fa[k] == 2 * ref_f64p(&r) - 1, "f64_1to1_array", "index %d", k);
          if (op == 14) VF(fa[k] == ref_f64p(&r), "f64_0to1_array", "index %d", k);
        } }
      }
    }
    VF(!memcmp(&s, &r, sizeof r), "state", "state after operation %d", op);
  }
  fp_add(&s, sizeof s);
  fp_done();
}
