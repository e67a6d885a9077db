/* scripts of status and memory register macros against a model */
#include "common.h"
void vf_init(void) {}
#define STEPS 6
static const int IDS[] = {0, 7, -5, 300};
static char GROUP_A[] = "aa", GROUP_B[] = "bb";
static int ran; /* steps whose function was called */
static status_t step_f(int id, char* group) { status_t s = {id, (uint8_t*)group}; ran++; return s; }
static int step_i(int id) { ran++; return id; }
typedef struct { int op, arg; } step_t;
/* leaving */
enum { REQUIRE, SRQ, I_REQUIRE, REQUIRE_RETURN, SET_GOTO, SP_SET_GOTO, SET, SP_SET, STATUS_OPS };
static int at_exit, success_seen, failure_seen;
static status_t script(int n, step_t* a) {
  status_declare;
  for (int i = 0; i < n; i++) {
    int id = IDS[a[i].arg];
    char* g = i & 1 ? GROUP_B : GROUP_A;
    switch (a[i].op) {
    case REQUIRE: status_require((step_f(id, g))); break;
    case SRQ: srq((step_f(id, g))); break;
    case I_REQUIRE: status_i_require((step_i(id))); break;
    case REQUIRE_RETURN: status_require_return((step_f(id, g))); break;
    case SET_GOTO: ran++; status_set_goto(g, id); break;
    case SP_SET_GOTO: ran++; sp_status_set_goto(id); break;
    case SET: ran++; status_set(g, id); break;
    case SP_SET: ran++; sp_status_set(id); break;
    }
    if (status_is_success) success_seen++;
    if (status_is_failure) failure_seen++;
  }
exit:
  at_exit++;
  status_return;
}
static int script_i(int n, step_t* a) {
  status_declare;
  for (int i = 0; i < n; i++) {
    if (a[i].op == SRQ) { status_require((step_f(IDS[a[i].arg], GROUP_A))); }
    else { status_i_require((step_i(IDS[a[i].arg]))); }
  }
exit:
  status_i_return;
}
static void statuses(void) {
  int n = vf_range(0, vf_bound(3, 4), "steps");
  step_t a[STEPS];
  for (int i = 0; i < n; i++) { a[i].op = vf_choose(STATUS_OPS, "macro"); a[i].arg = vf_choose(LEN(IDS), "id"); }
  /* the model */
  int id = 0, steps = 0, left = 0, goes_to_exit = 1, ok = 0, bad = 0;
  const char* group = "";
  for (int i = 0; i < n && !left; i++) {
    int v = IDS[a[i].arg];
    steps++;
    id = v;
    switch (a[i].op) {
    case I_REQUIRE: break;
    case SP_SET_GOTO: case SP_SET: group = "sp"; break;
    default: group = i & 1 ? GROUP_B : GROUP_A;
    }
    switch (a[i].op) {
    case SET_GOTO: case SP_SET_GOTO: left = 1; break;
    case SET: case SP_SET: break;
    case REQUIRE_RETURN: if (v) { left = 1; goes_to_exit = 0; } break;
    default: if (v) left = 1;
    }
    if (!left) { if (id) bad++; else ok++; }
  }
  ran = at_exit = success_seen = failure_seen = 0;
  status_t s = script(n, a);
  vf_op();
  VF(ran == steps, "steps", "%d of %d steps ran instead of %d", ran, n, steps);
  VF(s.id == id, "id", "status %d instead of %d", s.id, id);
  VF(!strcmp((char*)s.group, group), "group", "status of group '%s' instead of '%s'", s.group, group);
  VF(at_exit == goes_to_exit, "exit", "the code at exit ran %d times instead of %d", at_exit, goes_to_exit);
  VF(success_seen == ok && failure_seen == bad, "predicates", "success was seen %d and failure %d times instead of %d and %d", success_seen, failure_seen, ok, bad);
  id = 0; steps = 0;
  for (int i = 0; i < n && !id; i++) { id = IDS[a[i].arg]; steps++; }
  ran = 0;
  int e = script_i(n, a);
  VF(e == id && ran == steps, "int", "%d after %d steps instead of %d after %d", e, ran, id, steps);
  fp_reset(); fp_int(id); fp_int(steps); fp_int(s.id); fp_int(at_exit); fp_done();
}
/* registers */
#define CAP 300
static int freed[4 * CAP];
static void handler_a(void* p) { freed[(intptr_t)p]++; }
static void handler_b(void* p) { freed[(intptr_t)p] += 100; }
enum { ADD, ADD_P, ADD_Q, ADD2_P, ADD2_Q, FREE, FREE_P, FREE_Q, FREE2_P, FREE2_Q, REG_OPS };
static void registers(void) {
  int n = vf_range(0, vf_bound(5, 6), "operations"), many = vf_choose(3, "additions at once");
  many = (int[]){1, 3, 60}[many];
  int held[5] = {0}, next = 0, live = 0, expected[4 * CAP] = {0}, owner[4 * CAP], kind[4 * CAP];
  memset(freed, 0, sizeof freed);
  vf_track = 1;
  memreg_init(CAP);
  memreg_init_named(p, CAP);
  memreg_init_named(q, CAP);
  memreg2_init_named(p, CAP);
  memreg2_init_named(q, CAP);
  for (int i = 0; i <= n + 4; i++) {
    int op = i < n ? vf_choose(REG_OPS, "operation") : FREE + i - n, reg = op % 5;
    if (op < FREE) {
      for (int k = 0; k < many; k++) {
        void* m = reg < 3 ? malloc(3) : 0;
        if (m) live++;
        switch (op) {
        case ADD: memreg_add(m); break;
        case ADD_P: memreg_add_named(p, m); break;
        case ADD_Q: memreg_add_named(q, m); break;
        case ADD2_P: memreg2_add_named(p, (void*)(intptr_t)next, (k & 1 ? handler_b : handler_a)); break;
        case ADD2_Q: memreg2_add_named(q, (void*)(intptr_t)next, (k & 1 ? handler_b : handler_a)); break;
        }
        if (!m) { owner[next] = reg; kind[next] = k & 1 ? 100 : 1; next++; }
        held[reg]++;
      }
    } else {
      switch (op) {
      case FREE: memreg_free; break;
      case FREE_P: memreg_free_named(p); break;
      case FREE_Q: memreg_free_named(q); break;
      case FREE2_P: memreg2_free_named(p); break;
      case FREE2_Q: memreg2_free_named(q); break;
      }
      if (reg < 3) live -= held[reg];
      held[reg] = 0;
      for (int k = 0; k < next; k++) if (owner[k] == reg) { expected[k] = kind[k]; }
    }
    vf_op();
    VF(vf_live() == live, "live", "%ld instead of %d blocks after operation %d on register %d", vf_live(), live, op, reg);
    for (int k = 0; k < next; k++) VF(freed[k] == expected[k], "handler", "address %d: handler calls %d instead of %d", k, freed[k], expected[k]);
  }
  fp_reset(); fp_int(n); fp_int(next); fp_int(many); fp_done();
}
void vf_body(void) { if (vf_choose(2, "kind")) registers(); else statuses(); }
