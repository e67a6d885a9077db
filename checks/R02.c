#include "common.h"
#include "rnd.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
/* draws at the lowest, middle and highest generator output of each value */
static uint32_t weights(uint32_t* cu, int n, int max) {
  uint32_t sum = 0;
  for (int i = 0; i < n; i++) cu[i] = sum += vf_choose(max, "weight");
  return sum;
}
static uint32_t ref_discrete(ref_t* r, const uint32_t* cu, int n) {
  uint64_t v = ref_bounded(r, cu[n - 1]);
  int i = 0;
  while (cu[i] <= v) i++;
  return i;
}
static void set_state(int draws, uint32_t sum) {
  uint64_t x[4] = {0x123456789abcdefull, 0x9876543210ull, 0x5555aaaa5555aaaaull, 0x1234432112344321ull};
  for (int i = 0; i < draws; i++) {
    uint32_t v = vf_choose(sum, "draw");
    x[i] = draw_for(v, sum);
  }
  sp_random_state = state_for(x);
}
void vf_body(void) {
  int op = vf_choose(9, "operation");
  uint32_t* cu; int n; uint32_t sum; ref_t r;
  fp_reset(); fp_int(op);
  if (op <= 4) {
    n = vf_range(1, vf_bound(4, 5), "size");
    cu = vf_u32s(n);
    sum = weights(cu, n, 4);
    if (!sum) vf_skip();
  }
  switch (op) {
  case 0: {
    set_state(1, sum); r = ref_of(sp_random_state);
    uint32_t a = sp_time_random_discrete(cu, n), b = ref_discrete(&r, cu, n);
    VF(a < n && a == b, "discrete", "index %u instead of %u", a, b);
    VF(cu[a] > (a ? cu[a - 1] : 0), "weight", "index %u has no weight", a);
    fp_int(a); break; }
  case 1: {
    int c = vf_choose(4, "count");
    set_state(c, sum); r = ref_of(sp_random_state);
    uint32_t* o = vf_u32s(c);
    sp_times_random_discrete(cu, n, c, o);
    for (int i = 0; i < c; i++) { uint32_t b = ref_discrete(&r, cu, n); VF(o[i] == b, "discrete_array", "index %d: %u instead of %u", i, o[i], b); fp_int(b); }
    break; }
  case 2: {
    int support = 0;
    for (int i = 0; i < n; i++) support += cu[i] > (i ? cu[i - 1] : 0);
    int c = vf_choose(n + 2, "count"), m = c < n ? c : n;
    if (m > support) vf_skip();
    set_state(m < 3 ? m : 2, sum); r = ref_of(sp_random_state);
    uint32_t* o = vf_u32s(m);
    uint32_t used = 0;
    sp_times_random_discrete_unique(cu, n, c, o);
    for (int i = 0; i < m; i++) {
      uint32_t b;
      VF(o[i] < n && !(used & (1u << o[i])), "unique", "index %d: %u is repeated or outside", i, o[i]);
      do b = ref_discrete(&r, cu, n); while (used & (1u << b));
      VF(b == o[i], "unique_draw", "index %d: %u instead of %u", i, o[i], b);
      used |= 1u << b; fp_int(b);
    }
    break; }
  case 3: {
    if (n < 2) vf_skip();
    uint32_t range = vf_choose(14, "range"); if (range > 11) range = range == 12 ? 70001 : 5003;
    set_state(1, sum); r = ref_of(sp_random_state);
    uint32_t a = sp_time_random_discrete_bounded(cu, n, range), b = ref_discrete(&r, cu, n);
    VF(a <= range && fabs(a - range * (b / (double)(n - 1))) <= 0.5 + 1e-9, "bounded", "%u for index %u of %d in range %u", a, b, n, range);
    fp_int(a); break; }
  case 4: {
    set_state(1, sum); r = ref_of(sp_random_state);
    double range = vf_range(1, 4, "range") * 1.5; if (range == 6) range = 1000.25;
    double a = sp_sample_random_discrete_bounded(cu, n, range), b = ref_discrete(&r, cu, n);
    VF(a >= 0 && a < range && vf_close(a, range * b / n), "bounded_sample", "%g for index %g of %d in range %g", a, b, n, range);
    fp_double(a); break; }
  case 5: case 6: {
    /* all values of up to the first n bits */
    static const int sizes[] = {0, 1, 2, 5, 8, 31, 32, 33, 63, 64, 65, 70, 300, 5003};
    n = sizes[vf_choose(LEN(sizes), "size")];
    uint64_t x[4];
    uint32_t low = vf_choose(256, "bits"), rest = vf_choose(2, "rest") ? 0xffffff00u : 0x5a5a5a00u;
    for (int i = 0; i < 4; i++) x[i] = ((uint64_t)((low * (i ? 0x1010101u : 1) * (1 + 2 * i)) ^ rest ^ (i ? low : 0)) << 32) | 0x13579bdf;
    sp_random_state = state_for(x);
    r = ref_of(sp_random_state);
    uint32_t* o = vf_u32s(n), *bits = vf_u32s(n + 1);
    uint32_t word = 0;
    for (int i = 0; i < n; i++) { if (i % 32 == 0) word = ref_u64(&r) >> 32; bits[i] = 1 & (word >> (i % 32)); }
    if (op == 5) {
      vf_track = 1;
      status_t s = sp_times_random_binary(n, o);
      vf_track = 0;
      VF(!s.id && !vf_live(), "binary", "status %d, %ld blocks", s.id, vf_live());
      same_u32s(o, bits, n, "binary", "random binary");
      fp_add(o, 4 * n);
    } else {
      uint32_t* a = vf_u32s(n), size = 999, k = 0;
      for (int i = 0; i < n; i++) a[i] = 1000 + 3 * i;
      sp_times_select_random(a, n, o, &size);
      for (int i = 0; i < n; i++) if (bits[i]) { VF(k < size && o[k] == a[i], "select_random", "element %u", k); k++; }
      VF(k == size, "select_random", "size %u instead of %u", size, k);
      fp_int(size);
    }
    break; }
  case 8: {
    /* many elements */
    n = (int[]){LARGE, 5003, 64, 321}[vf_choose(4, "size")]; cu = vf_u32s(n); sum = 0;
    int kind = vf_choose(4, "weights"), support = 0;
    for (int i = 0; i < n; i++) { int w = kind == 0 ? 1 : kind == 1 ? i % 7 * 1000 : kind == 2 ? i > n - 11 : i % 2 ? (n > 1000 ? 800000 : 14000000) : 0; cu[i] = sum += w; support += w > 0; }
    sp_random_state = sp_random_state_new(vf_choose(n > 1000 ? 2 : 20, "seed"));
    r = ref_of(sp_random_state);
    int unique = vf_choose(2, "unique"), c = unique ? support : 2 * n;
    uint32_t* o = vf_u32s(c); uint8_t* used = vf_mem(n);
    memset(used, 0, n);
    if (unique) sp_times_random_discrete_unique(cu, n, c, o); else sp_times_random_discrete(cu, n, c, o);
    for (int i = 0; i < c; i++) {
      uint32_t b;
      do b = ref_discrete(&r, cu, n); while (unique && used[b]);
      VF(b == o[i], "many", "index %d: %u instead of %u", i, o[i], b);
      used[b] = 1;
    }
    fp_add(o, 4 * c);
    break; }
  case 7: {
    uint32_t min = (uint32_t[]){0, 10, 20, 40, 5003, 70001, 4000000000u}[vf_choose(7, "min")], max = min + 1 + vf_choose(60, "range");
    sp_random_state = sp_random_state_new(vf_choose(50, "seed"));
    r = ref_of(sp_random_state);
    double m = 0;
    for (int i = 0; i < 32; i++) m += min + ref_bounded(&r, max - min);
    uint32_t a = sp_normal_random(min, max);
    VF(a >= min && a < max && a == (uint32_t)(m / 32), "normal", "%u in %u to %u, mean %g", a, min, max, m / 32);
    fp_int(a); break; }
  }
  fp_done();
}
