#include "seq.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
static int freed[8], present[8];
static uint32_t starts[8];
static void list_probe_free(sp_event_t* e) {
  int i = (int)(intptr_t)e->config;
  VF(i >= 0 && i < 8 && !freed[i], "freed_twice", "event %d is freed again", i);
  freed[i] = 1;
  e->free = 0;
}
static int check_list(sp_event_list_t* list, int n, int prepared) {
  int seen[8] = {0}, count = 0;
  sp_event_list_t* previous = 0;
  for (sp_event_list_t* a = list; a; previous = a, a = a->next) {
    int id = (int)(intptr_t)a->event.config;
    VF(++count <= n, "circular", "more elements than were added");
    VF(a->previous == previous, "previous", "previous link of event %d", id);
    VF(id >= 0 && id < n && !seen[id] && present[id], "element", "event %d is contained twice or was removed", id);
    seen[id] = 1;
    VF(a->event.start == starts[id] && a->event.end == starts[id] + 10 + id, "content", "event %d has start %u and end %u", id, a->event.start, a->event.end);
    if (prepared && previous) VF(previous->event.start <= a->event.start, "order", "event at %u after event at %u", a->event.start, previous->event.start);
    if (!prepared && previous) VF(previous->event.start >= a->event.start, "add_order", "event at %u after event at %u before preparing", a->event.start, previous->event.start);
  }
  /* ends the process if it finds the list invalid */
  sp_event_list_validate(list);
  for (int i = 0; i < n; i++) VF(seen[i] == present[i], "lost", "event %d is %s the list", i, present[i] ? "not in" : "in");
  return count;
}
/* many events */
static int many_start(int kind, int i, int n) { return kind == 0 ? i : kind == 1 ? n - i : kind == 2 ? i * 37 % 101 : kind == 3 ? i % 2 : 65000 + i * 7; }
static int many_freed;
static void many_free(sp_event_t* e) { many_freed++; e->free = 0; }
static void many(void) {
  int n = vf_choose(2, "count") ? LARGE : 40, kind = vf_choose(5, "starts"), prepare = vf_choose(2, "prepare"), step = vf_choose(4, "remove");
  sp_event_list_t* list = 0;
  many_freed = 0;
  vf_track = 1;
  for (int i = 0; i < n; i++) {
    sp_event_t e;
    memset(&e, 0, sizeof e);
    e.start = many_start(kind, i, n); e.end = e.start + 1; e.free = many_free; e.config = (void*)(intptr_t)i;
    VF(!sp_event_list_add(&list, e).id, "status", "sp_event_list_add fails");
  }
  if (prepare) { sp_seq_events_prepare((&list)); }
  uint8_t* gone = vf_mem(n), *seen = vf_mem(n);
  memset(gone, 0, n); memset(seen, 0, n);
  int count = n, at = 0;
  if (step) for (sp_event_list_t *a = list, *next; a; a = next, at++) {
    next = a->next;
    if (at % (step + 1) == step || at == 0 || !next) { gone[(intptr_t)a->event.config] = 1; sp_event_list_remove(&list, a); count--; }
  }
  VF(many_freed == n - count, "remove_free", "%d events freed instead of %d", many_freed, n - count);
  sp_event_list_t* previous = 0;
  fp_reset();
  for (sp_event_list_t* a = list; a; previous = a, a = a->next) {
    int id = (intptr_t)a->event.config;
    VF(id >= 0 && id < n && !seen[id] && !gone[id] && a->previous == previous && a->event.start == many_start(kind, id, n), "element", "element of event %d", id);
    if (previous) VF(prepare ? previous->event.start <= a->event.start : previous->event.start >= a->event.start, "order", "event at %u after event at %u", a->event.start, previous->event.start);
    seen[id] = 1; count--;
    fp_int(a->event.start);
  }
  VF(!count, "lost", "%d events are not in the list", count);
  sp_event_list_free(&list);
  vf_track = 0;
  VF(!list && many_freed == n && !vf_live(), "leak", "%d of %d events freed, %ld list elements are not freed", many_freed, n, vf_live());
  fp_done();
}
void vf_body(void) {
  if (vf_choose(2, "part")) { many(); return; }
  sp_event_list_t* list = 0;
  memset(freed, 0, sizeof freed); memset(present, 0, sizeof present);
  int max = vf_bound(5, 6), n = 0;
  vf_track = 1;
  int fail = vf_choose(2, "allocation failure") ? 1 + vf_choose(max, "failing allocation") : 0, lost = 0;
  /* additions */
  vf_fail_at = fail;
  int adds = vf_range(0, max, "additions");
  if (fail > adds) vf_skip();
  for (int i = 0; i < adds; i++) {
    sp_event_t e;
    memset(&e, 0, sizeof e);
    starts[n] = vf_choose(adds > 4 ? 3 : 4, "start");
    e.start = starts[n]; e.end = starts[n] + 10 + n;
    e.free = list_probe_free; e.config = (void*)(intptr_t)n;
    long before = vf_fail_count;
    status_t s = sp_event_list_add(&list, e);
    if (vf_fail_count > before) { VF(s.id, "memory", "success without memory"); lost++; }
    else { VF(!s.id, "status", "sp_event_list_add status %d", s.id); present[n] = 1; n++; }
    vf_note(" add %u", e.start);
    check_list(list, n, 0);
    vf_op();
  }
  int left = n, prepared = vf_choose(2, "prepare");
  if (prepared) { sp_seq_events_prepare((&list)); check_list(list, n, 1); vf_op(); vf_note(" prepare"); }
  /* removals at any position */
  while (left && (adds <= 4 || n - left < 2)) {
    int k = vf_choose(left + 1, "remove");
    if (k == left) break;
    sp_event_list_t* a = list;
    for (int i = 0; i < k; i++) a = a->next;
    int id = (int)(intptr_t)a->event.config;
    present[id] = 0;
    vf_note(" remove %d", k);
    sp_event_list_remove(&list, a);
    VF(freed[id], "remove_free", "the removed event %d is not freed", id);
    left--;
    VF(check_list(list, n, prepared) == left, "count", "list has another length than %d", left);
    vf_op();
  }
  for (int i = 0; i < n; i++) VF(freed[i] == !present[i], "freed", "event %d freed %d times", i, freed[i]);
  fp_reset();
  for (sp_event_list_t* a = list; a; a = a->next) { fp_int(a->event.start); fp_int((intptr_t)a->event.config); }
  sp_event_list_free(&list);
  VF(!list, "list", "the list is not empty");
  for (int i = 0; i < n; i++) VF(freed[i], "not_freed", "event %d is not freed", i);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld list elements are not freed", vf_live());
  fp_int(prepared); fp_done();
}
