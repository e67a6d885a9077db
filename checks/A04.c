#define HUGE_SIZES
#include "common.h"
#include "rnd.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
static int ascending(const void* a, const void* b) { uint32_t x = *(uint32_t*)a, y = *(uint32_t*)b; return (x > y) - (x < y); }
void vf_body(void) {
  int op = vf_choose(6, "operation"), n;
  uint32_t *t, *t0, *o; double *s, *s0;
  fp_reset(); fp_int(op);
  switch (op) {
  case 0: case 1: {
    int big = vf_bound(8, 9);
    n = choose_size(1, big, "size");
    int alpha = n <= 5 ? 5 : n <= 6 ? 4 : n <= 7 ? 3 : n <= 8 ? 3 : 2;
    t = vf_u32s(n);
    int shape = n >= large_from ? vf_choose(6, "shape") : 0;
    for (int i = 0; i < n; i++) t[i] = 5 + (n < large_from ? vf_choose(alpha, "value") : shape == 0 ? i : shape == 1 ? n - i : shape == 2 ? i * 7919 % 211 : shape == 3 ? i % 2 : shape == 4 ? i < n / 2 ? i : n - i : 3);
    t0 = copy_u32s(t, n);
    s = vf_doubles(n);
    for (int i = 0; i < n; i++) s[i] = t[i] - 7.5;
    int l = 0, r = n - 1;
    if (n >= large_from) { l = choose_index(n, "left"); r = l + choose_index(n - l, "right"); }
    if (n <= 5) { l = vf_choose(n, "left"); r = l + vf_choose(n - l, "right"); }
    note_u32s("in", t, n < 20 ? n : 0);
    qsort(t0 + l, r - l + 1, sizeof *t0, ascending);
    if (op == 0) { quicksort(sp_time_sort_less, sp_time_sort_swap, t, l, r); same_u32s(t, t0, n, "sort", "sorted times"); }
    else { quicksort(sp_sample_sort_less, sp_sample_sort_swap, s, l, r); for (int i = 0; i < n; i++) VF(s[i] == t0[i] - 7.5, "sort", "sorted samples: index %d is %g", i, s[i]); }
    fp_add(t0, 4 * n); break; }
  case 2: {
    n = choose_size(0, vf_bound(6, 8), "size");
    t = vf_u32s(n); o = vf_u32s(n); s = vf_doubles(n); s0 = vf_doubles(n);
    int step = vf_choose(2, "distinct") ? 10 : 0;
    for (int i = 0; i < n; i++) { t[i] = (n < large_from ? vf_choose(2, "value") : (i < n / 2 ? i : n - 1 - i) % 7) + step * i; s[i] = t[i] * 0.5 - 3; }
    sp_times_reverse(t, n, o);
    sp_samples_reverse(s, n, s0);
    for (int i = 0; i < n; i++) VF(o[i] == t[n - 1 - i] && s0[i] == s[n - 1 - i], "reverse", "index %d", i);
    fp_add(o, 4 * n); break; }
  case 3: {
    n = choose_size(1, 5, "size");
    int a = choose_index(n, "a"), b = choose_index(n, "b");
    t = vf_u32s(n); s = vf_doubles(n);
    uint32_t** p = vf_mem(n * sizeof *p);
    for (int i = 0; i < n; i++) { t[i] = 3 + i; s[i] = i - 0.5; p[i] = t + i; }
    sp_times_swap(t, a, b); sp_samples_swap(s, a, b); sp_times_shuffle_swap(p, a, b);
    for (int i = 0; i < n; i++) {
      int e = i == a ? b : i == b ? a : i;
      VF(t[i] == 3 + e && s[i] == e - 0.5 && p[i] == t + e, "swap", "index %d of %d after swapping %d and %d", i, n, a, b);
    }
    fp_add(t, 4 * n); break; }
  case 4: case 5: {
    /* all draws of the first four positions: exactly the fisher-yates arrangement, so that each is reachable once */
    n = choose_size(0, 5, "size");
    uint64_t x[4] = {1, 2, 3, 4};
    int draws[LARGE] = {0};
    if (n >= large_from) {
      /* a permutation of all elements for any state */
      sp_random_state = sp_random_state_new(vf_choose(20, "seed"));
      t = vf_u32s(n); s = vf_doubles(n); uint8_t* have = calloc(n, 1);
      for (int i = 0; i < n; i++) { t[i] = i; s[i] = i; }
      /* the same arrangement as with the draws for each position in order */
      sp_random_state_t state = sp_random_state;
      uint32_t* expected = vf_u32s(n);
      for (int i = 0; i < n; i++) expected[i] = i;
      for (int i = 0; i < n; i++) { int j = i + sp_time_random_bounded((n - i)); uint32_t v = expected[i]; expected[i] = expected[j]; expected[j] = v; }
      sp_random_state = state;
      if (op == 4) sp_times_shuffle(t, n); else sp_samples_shuffle(s, n);
      for (int i = 0; i < n; i++) { uint32_t v = op == 4 ? t[i] : (uint32_t)s[i]; VF(v < n && !have[v], "shuffle", "not a permutation"); have[v] = 1; VF(v == expected[i], "shuffle_draws", "index %d of %d is %u instead of %u", i, n, v, expected[i]); fp_int(v); }
      free(have);
      break;
    }
    for (int i = 0; i < n && i < 4; i++) { draws[i] = vf_choose(n - i, "draw"); x[i] = draw_for(draws[i], n - i); }
    sp_random_state = state_for(x);
    t = vf_u32s(n); t0 = vf_u32s(n); s = vf_doubles(n);
    for (int i = 0; i < n; i++) { t[i] = t0[i] = 2 * i; s[i] = i - 1.5; }
    for (int i = 0; i < n; i++) { int j = i + draws[i]; uint32_t v = t0[i]; t0[i] = t0[j]; t0[j] = v; }
    uint32_t seen = 0;
    if (op == 4) { sp_times_shuffle(t, n); for (int i = 0; i < n; i++) seen |= 1u << (t[i] / 2); same_u32s(t, t0, n, "shuffle_draws", "shuffled times"); }
    else { sp_samples_shuffle(s, n); for (int i = 0; i < n; i++) { seen |= 1u << (int)(s[i] + 1.5); VF(s[i] == t0[i] / 2 - 1.5, "shuffle_draws", "shuffled samples: index %d is %g", i, s[i]); } }
    VF(seen == (1u << n) - 1, "shuffle", "not a permutation");
    fp_add(t0, 4 * n); break; }
  }
  fp_done();
}
