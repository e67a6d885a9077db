#define HUGE_SIZES
#include "common.h"
/* transitions between arrays */
void vf_init(void) { sp_initialize(0, 1, 8); }
static const uint32_t V[] = {0, 1, 7, 4000000000u, 4294967295u};
void vf_body(void) {
  int left = vf_choose(2, "left"), large = vf_choose(2, "large"), na, nb;
  uint32_t *a, *b;
  if (large) {
    static const int SIZES[] = {7, 16, 33, 64, 65, 128, 255, 256, 301, 1024, 5003, 66003};
    na = SIZES[vf_choose(LEN(SIZES), "size of a")]; nb = SIZES[vf_choose(LEN(SIZES), "size of b")];
    int pattern = vf_choose(4, "pattern");
    a = vf_u32s(na); b = vf_u32s(nb);
    for (int i = 0; i < na; i++) a[i] = pattern == 0 ? i : pattern == 1 ? 4000000000u - i * 7 : pattern == 2 ? i * i % 1013 : 5;
    for (int i = 0; i < nb; i++) b[i] = pattern == 0 ? 1000 + 3 * i : pattern == 1 ? i : pattern == 2 ? i * 31 % 907 : 5;
  } else {
    na = vf_choose(vf_bound(5, 6), "size of a"); nb = vf_choose(vf_bound(5, 6), "size of b");
    if (vf_choose(2, "distinct")) {
      a = vf_u32s(na); b = vf_u32s(nb);
      for (int i = 0; i < na; i++) a[i] = 10 + 100 * i;
      for (int i = 0; i < nb; i++) b[i] = 40017 + 1000 * i;
    } else {
      int values = na + nb > 6 ? 3 : 5;
      a = choose_u32s(na, V, values, "a"); b = choose_u32s(nb, V, values, "b");
    }
  }
  if (!large) { note_u32s("a", a, na); note_u32s("b", b, nb); }
  int n = left ? nb : na, half = (left ? na : nb) / 2, count = n < half ? n : half;
  uint32_t *a0 = copy_u32s(a, na), *b0 = copy_u32s(b, nb), *out = vf_u32s(n);
  for (int i = 0; i < n; i++) out[i] = 12345;
  if (left) sp_times_make_seamless_left(a, na, b, nb, out); else sp_times_make_seamless_right(a, na, b, nb, out);
  vf_op();
  same_u32s(a, a0, na, "input", "a"); same_u32s(b, b0, nb, "input", "b");
  for (int i = 0; i < n; i++) {
    int k = left ? count - i : i - (n - count) + 1; /* 1 to count for changed elements */
    uint32_t from = left ? b[i] : a[i];
    if (k < 1) { VF(out[i] == from, "unchanged", "element %d is %u instead of %u", i, out[i], from); continue; }
    uint32_t to = left ? a[na - 1 - i] : b[count - k];
    double t = (double)k / count, e = (1 - t) * from + t * to;
    VF(fabs(out[i] - e) <= 0.5 + 1e-5, "blended", "element %d is %u instead of %.9g", i, out[i], e);
    if (k == count) VF(out[i] == to, "meets", "element %d is %u instead of %u", i, out[i], to);
  }
  fp_reset(); fp_int(left * 1000 + count); fp_add(out, 4 * n); fp_done();
}
