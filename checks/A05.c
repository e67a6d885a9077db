#include "common.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
static uint32_t power(uint32_t a, int b) { uint32_t r = 1; while (b--) r *= a; return r; }
void vf_body(void) {
  int op = vf_choose(6, "operation");
  fp_reset(); fp_int(op);
  vf_track = 1;
  switch (op) {
  case 0: {
    int n = vf_range(1, vf_bound(6, 7), "size"), offset = vf_choose(3, "offset"), order = vf_choose(2, "order");
    uint32_t* set = vf_u32s(n), **out = 0, size = 0, total = 1;
    for (int i = 0; i < n; i++) { set[i] = offset + 3 * (order ? n - 1 - i : i); total *= i + 1; }
    uint32_t* set0 = copy_u32s(set, n);
    status_t s = sp_times_permutations(n, set, n, &out, &size);
    VF(!s.id && size == total, "permutations", "status %d, %u permutations of %d", s.id, size, n);
    VF(sp_permutations_max(n, n) == total, "permutations_max", "%u", sp_permutations_max(n, n));
    uint8_t* seen = vf_mem(total); memset(seen, 0, total);
    for (uint32_t i = 0; i < size; i++) {
      /* rank of the permutation */
      uint32_t rank = 0, used = 0;
      for (int k = 0; k < n; k++) {
        uint32_t v = (out[i][k] - offset) / 3;
        VF(v < n && out[i][k] == offset + 3 * v && !(used & (1u << v)), "permutations", "entry %u is not a permutation", i);
        int less = 0;
        for (uint32_t j = 0; j < v; j++) less += !(used & (1u << j));
        rank = rank * (n - k) + less;
        used |= 1u << v;
      }
      VF(!seen[rank], "permutations", "permutation %u is repeated", i);
      seen[rank] = 1;
      out[i][0] = 99; /* entries are independent */
    }
    same_u32s(set, set0, n, "input", "set");
    sp_times_array_free(out, size);
    VF(!vf_live(), "leak", "%ld blocks", vf_live());
    fp_int(n); break; }
  case 1: {
    int sum = vf_range(1, vf_bound(11, 14), "sum");
    uint32_t **out = 0, size = 0, *sizes = 0, total = 1u << (sum - 1);
    status_t s = sp_times_compositions(sum, &out, &size, &sizes);
    VF(!s.id && size == total, "compositions", "status %d, %u compositions of %d", s.id, size, sum);
    VF(sp_compositions_max(sum) == total, "compositions_max", "%u", sp_compositions_max(sum));
    uint8_t* seen = vf_mem(total); memset(seen, 0, total);
    for (uint32_t i = 0; i < size; i++) {
      /* a composition is the set of its inner partial sums */
      uint32_t rank = 0, at = 0;
      VF(sizes[i] >= 1 && sizes[i] <= sum, "compositions", "size %u", sizes[i]);
      for (uint32_t k = 0; k < sizes[i]; k++) { VF(out[i][k] >= 1 && at + out[i][k] <= sum, "compositions", "entry %u", i); at += out[i][k]; if (at < sum) rank |= 1u << (at - 1); }
      VF(at == sum && !seen[rank], "compositions", "entry %u has sum %u or is repeated", i, at);
      seen[rank] = 1;
      out[i][0] = 99;
    }
    sp_times_array_free(out, size);
    free(sizes);
    VF(!vf_live(), "leak", "%ld blocks", vf_live());
    fp_int(sum); break; }
  case 2: {
    int large = vf_choose(6, "large"), digits = large ? (int[]){2, 3, 5, 12, 1}[large - 1] : vf_range(1, 4, "digits"), base = large ? (int[]){257, 20, 6, 2, 70001}[large - 1] : vf_range(1, 4, "base");
    uint32_t max = power(base, digits);
    if (max > 300 && !large) vf_skip();
    VF(sp_set_sequence_max(base, digits) == max, "set_sequence_max", "%u", sp_set_sequence_max(base, digits));
    uint32_t count = large ? vf_choose(2, "count") ? max : 1025 : vf_range(1, max, "count"), *out = vf_u32s(digits * count), start = large ? (uint32_t[]){0, 1, max / 2, max - 1, max - 70 % max}[vf_choose(5, "start")] : vf_choose(max, "start");
    for (int d = 0; d < digits; d++) out[d] = start / power(base, d) % base;
    sp_times_sequences(base, digits, count, out);
    for (uint32_t i = 0; i < count; i++) for (int d = 0; d < digits; d++) {
      uint32_t e = (start + i) % max / power(base, d) % base;
      VF(out[i * digits + d] == e, "sequences", "sequence %u digit %d is %u instead of %u", i, d, out[i * digits + d], e);
    }
    fp_add(out, 4 * digits * count); break; }
  case 3: {
    if (vf_choose(2, "large base")) { /* all patterns of the digits first, middle and last */
      uint32_t base = (uint32_t[]){255, 256, 257, 65535, 65536, 65537, 4294967295u}[vf_choose(7, "base")], *a = vf_u32s(3), e[3];
      for (int i = 0; i < 3; i++) a[i] = e[i] = (uint32_t[]){0, 1, 255, base / 2, base - 2, base - 1}[vf_choose(6, "digit")] % base;
      for (int i = 0; i < 3; i++) { if (e[i] == base - 1) e[i] = 0; else { e[i]++; break; } }
      sp_times_sequence_increment(a, 3, base);
      for (int i = 0; i < 3; i++) VF(a[i] == e[i], "increment", "digit %d to base %u is %u instead of %u", i, base, a[i], e[i]);
      fp_add(a, 12); break;
    }
    if (vf_choose(2, "many digits")) { /* overflow at each place */
      int digits = (int[]){33, 320, 5003}[vf_choose(3, "digits")], base = vf_range(1, 4, "base"), first = choose_index(digits, "first") + vf_choose(2, "beyond");
      uint32_t *a = vf_u32s(digits), *e = vf_u32s(digits);
      for (int i = 0; i < digits; i++) { a[i] = i < first ? base - 1 : i == first ? 0 : i % base; e[i] = i < first ? 0 : i == first ? (base > 1) : a[i]; }
      if (base == 1) memset(e, 0, digits * sizeof *e);
      sp_times_sequence_increment(a, digits, base);
      same_u32s(a, e, digits, "increment", "digits");
      fp_add(a, 4 * digits); break;
    }
    int digits = vf_range(0, 4, "digits"), base = vf_range(1, 5, "base");
    uint32_t max = power(base, digits), v = vf_choose(max, "value"), *a = vf_u32s(digits);
    for (int d = 0; d < digits; d++) a[d] = v / power(base, d) % base;
    sp_times_sequence_increment(a, digits, base);
    for (int d = 0; d < digits; d++) VF(a[d] == (v + 1) % max / power(base, d) % base, "increment", "digit %d is %u", d, a[d]);
    fp_add(a, 4 * digits); break; }
  case 4: {
    uint32_t n = vf_range(0, 8, "set"), k = vf_range(0, n, "selection"), e = 1;
    for (uint32_t i = 0; i < k; i++) e *= n - i;
    VF(sp_permutations_max(n, k) == e, "permutations_max", "%u of %u: %u instead of %u", k, n, sp_permutations_max(n, k), e);
    if (n) VF(sp_set_sequence_max(n, k) == power(n, k), "set_sequence_max", "%u of %u: %u", k, n, sp_set_sequence_max(n, k));
    VF(sp_set_sequence_max(0, k) == 0, "set_sequence_max", "empty set");
    fp_int(e); break; }
  case 5: {
    /* counts of overlapping sequences by brute force */
    uint32_t n = vf_range(1, 12, "size"), w = vf_range(1, n, "width"), all = 0;
    for (uint32_t x = 1; x <= n; x++) for (uint32_t i = 0; i + x <= n; i++) all++;
    VF(sp_stat_unique_max(n, w) == n - w + 1, "unique_max", "%u", sp_stat_unique_max(n, w));
    VF(sp_stat_repetition_max(n, w) == n - w, "repetition_max", "%u", sp_stat_repetition_max(n, w));
    VF(sp_stat_unique_all_max(n) == all, "unique_all_max", "%u", sp_stat_unique_all_max(n));
    VF(sp_stat_repetition_all_max(n) == all - n, "repetition_all_max", "%u", sp_stat_repetition_all_max(n));
    n = (uint32_t[]){300, 5003, 70001}[n % 3]; all = n * (n + 1ul) / 2;
    VF(sp_stat_unique_max(n, w) == n - w + 1 && sp_stat_repetition_max(n, w) == n - w, "unique_max", "%u", sp_stat_unique_max(n, w));
    VF(sp_stat_unique_all_max(n) == all && sp_stat_repetition_all_max(n) == all - n, "unique_all_max", "%u instead of %u", sp_stat_unique_all_max(n), all);
    fp_int(n); fp_int(w); break; }
  }
  fp_done();
}
