#include "seq.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
#define MAX 6000
static int released[MAX], handler_of[MAX], added;
static char address[MAX];
static void release(void* a, int handler) {
  int i = (int)((char*)a - address);
  VF(i >= 0 && i < added, "address", "a handler is called with an unknown address");
  VF(!released[i], "released_twice", "address %d is released again", i);
  VF(handler_of[i] == handler, "handler", "address %d is released by another handler", i);
  released[i] = 1;
}
static void handler0(void* a) { release(a, 0); }
static void handler1(void* a) { release(a, 1); }
void vf_body(void) {
  sp_event_t e;
  memset(&e, 0, sizeof e);
  memset(released, 0, sizeof released); memset(handler_of, 0, sizeof handler_of);
  added = 0;
  int depth = vf_range(0, vf_bound(6, 7), "operations"), reserved = 0, own_free = vf_choose(2, "free function"), first = 0;
  static const int INITIAL[] = {0, 4, 8, 9, 17, 33, 64, 300, -300, -5003};
  int initial = depth < 3 ? INITIAL[vf_choose(10, "initial")] : 0;
  int fail = vf_choose(4, "failing allocation");
  static void (*const handlers[])(void*) = {handler0, handler1};
  if (own_free) e.free = sp_group_free;
  vf_track = 1;
  fp_reset();
  if (initial < 0) {
    initial = -initial;
    VF(!sp_event_memory_ensure(&e, initial).id, "status", "ensure fails");
    for (int i = 0; i < initial; i++) {
      handler_of[added] = i & 1;
      sp_event_memory_fixed_add_with_handler(&e, address + added++, handlers[i & 1]);
    }
  } else for (int i = 0; i < initial; i++) {
    handler_of[added] = i & 1;
    VF(!sp_event_memory_add_with_handler(&e, address + added++, handlers[i & 1]).id, "status", "add fails");
    VF(array3_size(e.memory) == added, "size", "%zu addresses registered instead of %d", (size_t)array3_size(e.memory), added);
  }
  vf_alloc_count = 0;
  vf_fail_at = fail;
  for (int k = 0; k < depth; k++) {
    int op = vf_choose(reserved ? 8 : 6, "operation");
    if (op > 4) op = op == 5 ? 6 : op == 6 ? 5 : 7;
    long failed = vf_fail_count;
    status_t s;
    memreg2_t* data = e.memory.data;
    if (op > 5) {
      /* with the default handler, that frees memory */
      void* m = malloc(7);
      handler_of[added] = -1;
      vf_note(" %s memory", op == 6 ? "add" : "fixed");
      if (!m) { VF(vf_fail_count > failed, "memory", "no memory"); continue; }
      if (op == 6) {
        s = sp_event_memory_add((&e), m);
        if (vf_fail_count > failed) { VF(s.id, "memory", "success without memory"); free(m); }
        else { VF(!s.id, "status", "add status %d", s.id); added++; if (reserved) reserved--; }
      } else { sp_event_memory_fixed_add((&e), m); added++; reserved--; }
    } else if (op == 5) {
      /* only allowed for reserved space */
      handler_of[added] = k & 1;
      sp_event_memory_fixed_add_with_handler(&e, address + added++, handlers[k & 1]);
      reserved--; vf_note(" fixed");
    } else if (op == 0) {
      int h = k & 1;
      handler_of[added] = h;
      s = sp_event_memory_add_with_handler(&e, address + added, handlers[h]);
      vf_note(" add");
      if (vf_fail_count > failed) VF(s.id, "memory", "success without memory");
      else { VF(!s.id, "status", "add status %d", s.id); added++; if (reserved) reserved--; }
    } else if (op < 4) {
      int n = op == 1 ? 1 : op == 2 ? 3 : 6;
      s = sp_event_memory_ensure(&e, n);
      vf_note(" ensure %d", n);
      if (vf_fail_count > failed) VF(s.id, "memory", "success without memory");
      else { VF(!s.id, "status", "ensure status %d", s.id); if (n > reserved) reserved = n; }
    } else {
      sp_event_memory_free(&e);
      vf_note(" free");
      for (int i = first; i < added; i++) VF(released[i] || handler_of[i] < 0, "not_released", "address %d of %d is not released", i, added);
      first = added; reserved = 0;
    }
    vf_op();
    VF(e.memory.data || first == added, "lost", "the register is empty");
    if (e.memory.data) {
      VF(e.free == (own_free ? sp_group_free : sp_event_memory_free), "free_function", "the free function of the event is not as expected");
      VF(array3_size(e.memory) == added - first, "size", "%zu addresses registered instead of %d", (size_t)array3_size(e.memory), added - first);
    }
    for (int i = first; i < added; i++) VF(!released[i], "released_early", "address %d is released", i);
    fp_int(op); fp_int(added - first); fp_int(reserved); fp_done();
  }
  sp_event_memory_free(&e);
  sp_event_memory_free(&e);
  for (int i = 0; i < added; i++) VF(released[i] || handler_of[i] < 0, "not_released", "address %d of %d is not released", i, added);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
}
