#include "common.h"
/* memory of events, local memory and error memory as used through the macros of the interface, and the allocation helpers */
void vf_init(void) { sp_initialize(0, 1, 8); }
typedef struct { void* p; int size, kind; } result_t; /* kind 0: samples, 1: times, 2: units, 3: unspecified content */
#define OPS 34
static double X[] = {1, 3, 4}, Y[] = {2, 5, 1, 4, 3}, C[] = {0.5, -0.5, 0, 0.25};
/* both ways to call each function: the macro registers the result with the event */
#define CURVES3 C[0], C[1]
#define CURVES4 C[0], C[1], C[2]
#define CURVES5 C[0], C[1], C[2], C[3]
#define PATHS(M, d, e) \
  case 0: M(path_samples, d, e, 6, 4, X, Y, C) case 1: M(path_samples3, d, e, 6, 1, 2, 5, 1) case 2: M(path_samples4, d, e, 6, 1, 3, 2, 5, 1, 4) \
  case 3: M(path_samples5, d, e, 6, 1, 3, 4, 2, 5, 1, 4, 3) case 4: M(path_samples_c3, d, e, 6, 1, 2, 5, 1, CURVES3) case 5: M(path_samples_c4, d, e, 6, 1, 3, 2, 5, 1, 4, CURVES4) \
  case 6: M(path_samples_c5, d, e, 6, 1, 3, 4, 2, 5, 1, 4, 3, CURVES5) \
  case 7: M(envelope_zero, d, e, 6, 5, X, Y, C) case 8: M(envelope_zero3, d, e, 6, 2, 3) case 9: M(envelope_zero4, d, e, 6, 2, 4, 3, 1) \
  case 10: M(envelope_zero5, d, e, 6, 1, 2, 4, 3, 1, 2) case 11: M(envelope_zero_c3, d, e, 6, 2, 3, CURVES3) case 12: M(envelope_zero_c4, d, e, 6, 2, 4, 3, 1, CURVES4) \
  case 13: M(envelope_zero_c5, d, e, 6, 1, 2, 4, 3, 1, 2, CURVES5)
#define TIMES(M, d, e) \
  case 14: M(path_times, d, e, 6, 4, X, Y, C) case 15: M(path_times3, d, e, 6, 1, 2, 5, 1) case 16: M(path_times4, d, e, 6, 1, 3, 2, 5, 1, 4) \
  case 17: M(path_times5, d, e, 6, 1, 3, 4, 2, 5, 1, 4, 3) case 18: M(path_times_c3, d, e, 6, 1, 2, 5, 1, CURVES3) case 19: M(path_times_c4, d, e, 6, 1, 3, 2, 5, 1, 4, CURVES4) \
  case 20: M(path_times_c5, d, e, 6, 1, 3, 4, 2, 5, 1, 4, 3, CURVES5) \
  case 21: M(envelope_scaled, d, e, 6, 4, 10, X, Y, C) case 22: M(envelope_scaled3, d, e, 6, 10, 2, 3, 1, 2) case 23: M(envelope_scaled4, d, e, 6, 10, 2, 4, 3, 1, 2, 4) \
  case 24: M(envelope_scaled5, d, e, 6, 10, 1, 2, 4, 3, 1, 2, 1, 2) case 25: M(envelope_scaled_c3, d, e, 6, 10, 2, 3, 1, 2, CURVES3) case 26: M(envelope_scaled_c4, d, e, 6, 10, 2, 4, 3, 1, 2, 4, CURVES4) \
  case 27: M(envelope_scaled_c5, d, e, 6, 10, 1, 2, 4, 3, 1, 2, 1, 2, CURVES5)
#define PLAIN(name, d, e, ...) status = sp_##name(d, __VA_ARGS__); break;
#define OWNED(name, d, e, ...) sp_event_##name##_srq(e, d, __VA_ARGS__); break;
static status_t plain(int op, result_t* r) {
  status_declare;
  sp_sample_t* s = 0; sp_time_t* t = 0;
  r->size = 6; r->kind = op >= 14;
  switch (op) { PATHS(PLAIN, &s, 0) TIMES(PLAIN, &t, 0) }
  r->p = s ? (void*)s : (void*)t;
  status_return;
}
static int passed; /* macros that did not leave the function */
static status_t owned(int op, sp_event_t* e, result_t* r) {
  status_declare;
  sp_sample_t* s = 0; sp_time_t* t = 0; void* m = 0; sp_wave_event_config_t* w = 0; sp_unit_t* u = 0;
  r->size = op < 28 ? 6 : 5; r->kind = op < 14 ? 0 : op < 28 ? 1 : op == 28 ? 0 : op == 29 ? 1 : 3;
  switch (op) {
    PATHS(OWNED, &s, e)
    TIMES(OWNED, &t, e)
    case 28: sp_event_samples_srq(e, 5, &s); break;
    case 29: sp_event_times_srq(e, 5, &t); break;
    case 33: sp_event_units_srq(e, 5, &u); r->kind = 2; break;
    case 30: sp_event_malloc_srq(e, 5, &m); break;
    case 31: sp_event_malloc_type_srq(e, sp_wave_event_config_t, &w); r->kind = 3; r->size = sizeof *w; break;
    case 32: sp_event_malloc_type_n_srq(e, 3, sp_wave_event_config_t, &w); r->kind = 3; r->size = 3 * sizeof *w; break;
  }
  passed++;
  r->p = s ? (void*)s : t ? (void*)t : m ? m : u ? (void*)u : (void*)w;
exit:
  status_return;
}
/* the memory is as large as requested and its content as if made without the event */
static void check_result(int op, result_t* r) {
  int size = r->size * (r->kind == 0 ? sizeof(sp_sample_t) : r->kind == 1 ? sizeof(sp_time_t) : r->kind == 2 ? sizeof(sp_unit_t) : 1);
  VF(r->p, "result", "operation %d yields no memory", op);
  if (op < 28) {
    result_t p;
    int track = vf_track; vf_track = 0;
    VF(!plain(op, &p).id, "status", "the function of operation %d fails", op);
    VF(!memcmp(p.p, r->p, size), "content", "the result of operation %d with an event differs from the one without", op);
    free(p.p);
    vf_track = track;
  } else if (op < 30 || op == 33) for (int i = 0; i < size; i++) VF(!((char*)r->p)[i], "zero", "memory of operation %d is not zero", op);
  memset(r->p, 0x5a, size);
}
static int own_freed;
static void own_free(sp_event_t* e) { own_freed++; sp_event_memory_free(e); }
static void event_memory(void) {
  sp_declare_event(e);
  int many = vf_choose(2, "many"), n = many ? (int[]){7, 17, 40, 300}[vf_choose(4, "additions")] : vf_range(1, 2, "operations"), own = vf_choose(2, "own free");
  int first = many ? vf_choose(OPS, "first") : 0, step = many ? vf_choose(3, "step") : 0;
  int fail = many ? (vf_choose(2, "failing") ? 1 + (int[]){n, n + 1, n + 2, n / 2, n * 3 / 2}[vf_choose(5, "failing allocation")] : 0) : vf_choose(n == 1 ? 14 : 20, "failing allocation"), done = 0;
  static result_t rs[300];
  own_freed = 0;
  if (own) e.free = own_free;
  vf_track = 1; vf_fail_at = fail;
  status_t s = {0};
  for (int i = 0; i < n && !s.id; i++) {
    int op = many ? (first + i * step) % OPS : vf_choose(OPS, "operation");
    int before = passed;
    s = owned(op, &e, rs + i);
    VF(passed - before == !s.id, "leaves", "operation %d with status %d %s the function", op, s.id, passed > before ? "does not leave" : "leaves");
    vf_op();
    if (!s.id) { check_result(op, rs + i); done++; }
  }
  VF(!s.id == !vf_fail_count, "status", "status %d after %ld failing allocations", s.id, vf_fail_count);
  if (fail && !vf_fail_count) vf_trivial();
  for (int i = 0; i < done; i++) for (int j = 0; j < 5; j++) VF(((uint8_t*)rs[i].p)[j] == 0x5a, "overlap", "memory %d was changed or freed early", i);
  sp_event_free(e);
  VF(!vf_live(), "leak", "%ld blocks not freed after %d additions", vf_live(), done);
  VF(own_freed == own, "own_free", "the free function of the event was called %d times", own_freed);
  sp_event_free(e);
  sp_event_reset(e);
  VF(!e.free && !e.prepare && !e.generate && !e.config && !e.start && !e.end && !e.memory.data, "reset", "not a null event after reset");
  fp_reset(); fp_int(s.id); fp_int(done); fp_int(own); fp_done();
}
/* local memory is freed in any case, error memory only after a failure */
static int handled[8], handled_n;
static void handler(void* a) { handled[(intptr_t)a]++; handled_n++; }
static status_t scoped(int n, int* ops, int end, void** kept, int* kept_n, int* expected) {
  status_declare;
  local_memory_init(8);
  error_memory_init(8);
  sp_sample_t* s; sp_time_t* t; sp_unit_t* u; void* m;
  for (int i = 0; i < n; i++) {
    switch (ops[i]) {
    case 0: sp_local_samples_srq(3, &s); s[2] = 1; break;
    case 1: sp_local_times_srq(3, &t); t[2] = 1; break;
    case 2: srq(sph_helper_malloc(3, &m)); local_memory_add(m); break;
    case 3: sp_malloc_type_srq(2, sp_time_t, &t); error_memory_add(t); t[1] = 7; kept[(*kept_n)++] = t; break;
    case 4: local_memory_add2((void*)(intptr_t)i, handler); expected[i] = 1; break;
    case 5: error_memory_add2((void*)(intptr_t)i, handler); expected[i] = 2; break;
    case 6: sp_local_units_srq(3, &u); u[2] = 1; break;
    }
  }
  VF(!handled_n, "early", "memory freed before the end");
  if (end == 1) { sp_status_set_goto(sp_s_id_invalid_argument); }
exit:
  if (status_is_failure) { error_memory_free; }
  local_memory_free;
  status_return;
}
static void scopes(void) {
  int n = vf_range(0, vf_bound(4, 5), "operations"), end = vf_choose(2, "fails at the end"), fail = vf_choose(6, "failing allocation"), ops[8], kept_n = 0, expected[8] = {0};
  void* kept[8];
  for (int i = 0; i < n; i++) ops[i] = vf_choose(7, "operation");
  memset(handled, 0, sizeof handled); handled_n = 0;
  vf_track = 1; vf_fail_at = fail;
  status_t s = scoped(n, ops, end, kept, &kept_n, expected);
  vf_op();
  if (fail && !vf_fail_count) vf_trivial();
  int failure = vf_fail_count || end;
  VF(!s.id == !failure, "status", "status %d", s.id);
  for (int i = 0; i < n; i++) VF(handled[i] == (expected[i] == 1 || (expected[i] == 2 && failure)), "handler", "handler of operation %d called %d times", i, handled[i]);
  VF(vf_live() == (failure ? 0 : kept_n), "leak", "%ld blocks instead of %d", vf_live(), failure ? 0 : kept_n);
  if (!failure) for (int i = 0; i < kept_n; i++) { VF(((sp_time_t*)kept[i])[1] == 7, "content", "kept memory has changed"); free(kept[i]); }
  fp_reset(); fp_int(n); fp_int(failure); fp_int(kept_n); fp_int(handled_n); fp_done();
}
/* allocation helpers */
static void helpers(void) {
  static const int SIZES[] = {1, 2, 7, 8, 18, 24, 64, 65, 66, 255, 256, 4096, 70000};
  int op = vf_choose(4, "operation"), size = SIZES[vf_choose(LEN(SIZES), "size")], old = SIZES[vf_choose(LEN(SIZES), "old size")], fail = vf_choose(2, "failing");
  uint8_t* a = (uint8_t*)1, *before;
  status_t s;
  if (op == 3) { a = malloc(old); vf_track = 1; for (int i = 0; i < old; i++) a[i] = i * 7 + 1; } else if (old > 1) vf_skip();
  before = a;
  vf_track = 1; vf_fail_at = fail;
  s = op == 0 ? sph_helper_malloc(size, &a) : op == 1 ? sph_helper_malloc_string(size - 1, &a) : op == 2 ? sp_calloc_type(size, uint8_t, &a) : sp_realloc_type(size, uint8_t, &a);
  vf_op();
  if (fail) {
    VF(s.id == sph_helper_status_id_memory && !strcmp((char*)s.group, "sph"), "status", "status %d", s.id);
    VF(a == before, "changed", "the pointer changed on failure");
    if (op == 3) for (int i = 0; i < old; i++) VF(a[i] == (uint8_t)(i * 7 + 1), "content", "byte %d changed on failure", i);
  } else {
    VF(!s.id, "status", "status %d", s.id);
    if (op == 1) VF(!a[size - 1], "terminator", "no terminating zero");
    if (op == 2) for (int i = 0; i < size; i++) VF(!a[i], "zero", "byte %d is not zero", i);
    if (op == 3) for (int i = 0; i < old && i < size; i++) VF(a[i] == (uint8_t)(i * 7 + 1), "content", "byte %d was not kept", i);
    memset(a, 1, size);
  }
  if (!fail || op == 3) free(a);
  fp_reset(); fp_int(op); fp_int(size); fp_int(s.id); fp_done();
}
/* declarations of variables with new arrays or empty contents */
static status_t prepare_none(sp_event_t* e) { status_declare; status_return; }
static status_t declared(int n, double** samples, uint32_t** times) {
  status_declare;
  sp_define_samples_new_srq(a, n);
  *samples = a;
  sp_define_times_srq(b, n);
  *times = b;
exit:
  status_return;
}
static void declarations(void) {
  static const int SIZES[] = {1, 2, 3, 64, 65, 300, 66003};
  int n = SIZES[vf_choose(LEN(SIZES), "size")], fail = vf_choose(3, "failing allocation");
  uint32_t duration = (uint32_t[]){0, 1, 70001, 4294967295u}[vf_choose(4, "duration")], *t = 0;
  double* s = 0;
  memset(__builtin_alloca(4000), 0xee, 4000);
  vf_track = 1; vf_fail_at = fail;
  status_t status = declared(n, &s, &t);
  vf_op();
  VF(!status.id == !fail, "status", "status %d", status.id);
  for (int i = 0; s && i < n; i++) { VF(s[i] == 0, "samples", "sample %d is %g", i, s[i]); s[i] = 1; }
  for (int i = 0; t && i < n; i++) { VF(t[i] == 0, "times", "time %d is %u", i, t[i]); t[i] = 1; }
  VF(!s == (fail == 1) && !t == (fail > 0), "failure", "arrays are missing");
  sp_define_samples(s2, s); sp_define_times(t2, t);
  VF(s2 == s && t2 == t, "pointers", "wrong pointers");
  free(s); free(t);
  vf_fail_at = 0;
  sp_define_event(e, prepare_none, duration);
  VF(e.start == 0 && e.end == duration && e.prepare == prepare_none && !e.generate && !e.free && !e.config && !e.memory.data && !e.memory.size && !e.memory.used, "event", "%u to %u", e.start, e.end);
  VF(!sp_event_memory_add((&e), malloc(n)).id, "memory", "sp_event_memory_add fails");
  sp_event_memory_free((&e));
  sp_declare_event_list(list);
  VF(!list, "list", "the list is not empty");
  sp_event_list_free(&list);
  sp_declare_event(d);
  VF(!d.start && !d.end && !d.prepare && !d.generate && !d.free && !d.memory.data, "event", "%u to %u", d.start, d.end);
  sp_block_declare(block);
  sp_block_free(&block);
  VF(!vf_live(), "leak", "%ld blocks", vf_live());
  fp_reset(); fp_int(n); fp_int(fail); fp_int(duration); fp_done();
}
void vf_body(void) {
  int kind = vf_choose(4, "kind");
  if (kind == 0) event_memory(); else if (kind == 1) scopes(); else if (kind == 2) helpers(); else declarations();
}
