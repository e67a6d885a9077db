#include "common.h"
typedef struct { char a[3]; uint64_t b; } pair_t;
array3_declare_type(numbers, uint32_t);
array3_declare_type(pairs, pair_t);
void vf_init(void) { }
static const pair_t NO_PAIR;
static pair_t pair(uint32_t i) { pair_t p = NO_PAIR; p.a[0] = i; p.a[2] = i + 1; p.b = i * 65537ull; return p; }
static int same_pair(pair_t p, uint32_t i) { return p.a[0] == (char)i && p.a[2] == (char)(i + 1) && p.b == i * 65537ull; }
#define HISTORY(T, make, same) \
static void T##_check(T##_t a, const uint32_t* model, size_t used, size_t size) { \
  VF(array3_size(a) == used && array3_max_size(a) == size && array3_unused_size(a) == size - used, "size", "used %zu of %zu instead of %zu of %zu", array3_size(a), array3_max_size(a), used, size); \
  VF(!array3_full(a) == (used < size) && !array3_not_full(a) == (used == size), "full", "full %d, not full %d with %zu of %zu", array3_full(a), array3_not_full(a), used, size); \
  for (size_t i = 0; i < used; i++) VF(same(array3_get(a, i), model[i]), "element", "element %zu of %zu has changed", i, used); \
} \
static void T##_history(void) { \
  uint32_t model[8], next = 1; size_t used = 0, size = 0, n; \
  array3_declare(a, T##_t); \
  int depth = vf_range(1, vf_bound(6, 8), "operations"), fail = vf_choose(4, "failing allocation"); \
  T##_check(a, model, 0, 0); \
  vf_track = 1; vf_fail_at = fail; fp_reset(); \
  for (int d = 0; d < depth; d++) { \
    int op = vf_choose(6, "operation"); long failed = vf_fail_count; uint8_t r; \
    vf_op(); \
    switch (op) { \
    case 0: n = 1 + vf_choose(4, "size"); if (a.data) vf_skip(); r = T##_new(n, &a); VF(!r == (failed == vf_fail_count), "status", "result %d of new", r); if (!r) size = n, used = 0; break; \
    case 1: if (used == size) vf_skip(); array3_add(a, make(next)); model[used++] = next++; break; \
    case 2: if (!used) vf_skip(); array3_remove(a); used--; break; \
    case 3: if (!a.data) vf_skip(); array3_clear(a); used = 0; break; \
    case 4: n = 1 + vf_choose(4, "size"); if (!a.data) vf_skip(); r = T##_resize(&a, n); VF(!r == (failed == vf_fail_count), "status", "result %d of resize", r); if (!r) { size = n; if (used > n) used = n; } break; \
    case 5: { if (!a.data) vf_skip(); T##_t b = {0}, *p = &b; array3_take(p, a.data, a.size, a.used); array3_set_null(a); T##_check(a, model, 0, 0); a = b; break; } \
    } \
    T##_check(a, model, used, size); \
    fp_int(used); fp_int(size); \
  } \
  if (fail && !vf_fail_count) vf_trivial(); \
  array3_free(a); \
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live()); \
  fp_done(); \
} \
static void T##_many(void) { \
  static const size_t SIZES[] = {255, 256, 257, 5003, 66003}; \
  size_t size = SIZES[vf_choose(5, "size")], other = SIZES[vf_choose(5, "other size")], adds = vf_choose(2, "full") ? size : size / 2 + 1; \
  uint32_t* model = vf_u32s(66003); T##_t a; \
  vf_track = 1; \
  VF(!T##_new(size, &a), "status", "new fails"); \
  for (size_t i = 0; i < adds; i++) { model[i] = i * 7 + 1; array3_add(a, make(model[i])); } \
  T##_check(a, model, adds, size); \
  VF(!T##_resize(&a, other), "status", "resize fails"); \
  if (adds > other) adds = other; \
  T##_check(a, model, adds, other); \
  while (adds < other) { model[adds] = adds * 3; array3_add(a, make(model[adds])); adds++; } \
  T##_check(a, model, adds, other); \
  array3_free(a); \
  vf_op(); \
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live()); \
  fp_reset(); fp_int(size); fp_int(other); fp_done(); \
}
#define SELF(i) (i)
#define EQUAL(a, b) ((a) == (b))
HISTORY(numbers, SELF, EQUAL)
HISTORY(pairs, pair, same_pair)
static void stack(void) {
  array3_declare_stack(a, 5, numbers_t, uint32_t);
  int n = vf_choose(6, "elements"); uint32_t model[5];
  for (int i = 0; i < n; i++) { model[i] = i * 9 + 2; array3_add(a, model[i]); }
  numbers_check(a, model, n, 5);
  vf_op(); fp_reset(); fp_int(n); fp_done();
}
void vf_body(void) {
  switch (vf_choose(5, "kind")) {
  case 0: numbers_history(); break;
  case 1: pairs_history(); break;
  case 2: numbers_many(); break;
  case 3: pairs_many(); break;
  default: stack();
  }
}
