#include "seq.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
/* every single failure: of the preparation of each event and of each generate call of each event */
/* one of many events fails */
static void many(void) {
  static const int N[] = {40, 300};
  static const uint32_t BLOCK[] = {1, 50, 256, 1000};
  int n = N[vf_choose(2, "events")], placement = vf_choose(4, "placement"), duration = vf_choose(3, "duration"), group = vf_choose(2, "group"), f = (int[]){0, 1, n / 2, n - 2, n - 1}[vf_choose(5, "failing")], call = vf_choose(4, "call");
  uint32_t end = 0, block = BLOCK[vf_choose(4, "block")];
  sp_event_list_t* list = 0;
  sp_event_t e, g;
  status_t s;
  memset(&g, 0, sizeof g);
  vf_track = 1;
  if (group) { sp_event_t* p = &g; sp_group_event(p); }
  for (int i = 0; i < n; i++) {
    uint32_t a = placement == 0 ? 1 : placement == 1 ? i + 1 : placement == 2 ? (uint32_t)(n - i) : 1 + i * 7 % 97, d = duration == 0 ? 1 : duration == 1 ? 400 : 1 + i * 5 % 31;
    if (a + d > end) end = a + d;
    probe_new(&e, a, a + d, 0);
    VF(!(group ? sp_group_add(&g, e) : sp_event_list_add(&list, e)).id, "add", "adding fails");
  }
  if (group) VF(!sp_event_list_add(&list, g).id, "add", "adding fails");
  sp_seq_events_prepare((&list));
  if (!call) probes[f].fail_prepare = 1; else probes[f].fail_call = call == 3 ? 7 : call - 1;
  for (uint32_t t = 0; t < end; t += block) {
    sp_block_t out = exact_block(1, block);
    block_start = t; block_end = t + block;
    s = sp_seq(t, t + block, out, &list);
    vf_op();
    if (failures) {
      VF(s.id == first_failure.id && !strcmp((char*)s.group, FAIL_GROUP), "failure_status", "status %d of group %s instead of %d", s.id, s.group, first_failure.id);
      VF(!calls_after_failure, "calls_after_failure", "%d callbacks after the failure", calls_after_failure);
      VF(!list, "list_after_failure", "the list is not empty after a failure");
      break;
    }
    VF(!s.id, "status", "sp_seq status %d without a failing event", s.id);
  }
  if (!failures) vf_trivial();
  sp_event_list_free(&list);
  for (int i = 0; i < n; i++) VF(probes[i].freed == 1, "not_freed", "event %d is not freed", i);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
  fp_reset(); fp_int(n); fp_int(placement); fp_int(duration); fp_int(group); fp_int(f); fp_int(call); fp_int(failures); fp_done();
}
void vf_body(void) {
  if (vf_choose(2, "many")) { probes_reset(); many(); return; }
  node_t* top[3];
  sp_event_list_t* list = 0;
  status_t s;
  sp_event_t e;
  probes_reset();
  uint32_t large = vf_choose(3, "times"), k = large ? 130 : 1, base = large == 2 ? 4294965000u : 0, grid = large ? 2 : vf_bound(3, 4), end = base + k * (grid + 1);
  int shape = vf_choose(SHAPES, "shape");
  int n = choose_tree(grid, shape, top);
  scale_tree(top, n, k, base);
  vf_track = 1;
  for (int i = 0; i < n; i++) { node_build(top[i], 0, 0, &e); s = sp_event_list_add(&list, e); VF(!s.id, "add", "status %d", s.id); }
  sp_seq_events_prepare((&list));
  note_nodes(top, n);
  /* up to two failing events: the first to fail decides */
  int f = vf_choose(probe_n + 1, "failing") - 1;
  if (f >= 0) {
    int call = vf_choose(5, "call");
    if (!call) probes[f].fail_prepare = 1; else probes[f].fail_call = call - 1;
    if (probe_n > 1 && shape <= 2) {
      int g = f + 1 + vf_choose(probe_n - f, "second");
      if (g < probe_n) { call = vf_choose(3, "second call"); if (!call) probes[g].fail_prepare = 1; else probes[g].fail_call = call - 1; }
    }
  }
  int failed = 0;
  for (uint32_t t = base, cut; t < end; t = cut) {
    cut = base + k * next_cut((t - base) / k, (end - base) / k, "cut");
    sp_block_t out = exact_block(1, cut - t);
    block_start = t; block_end = cut;
    s = sp_seq(t, cut, out, &list);
    vf_op();
    if (failures) {
      VF(s.id == first_failure.id && !strcmp((char*)s.group, FAIL_GROUP), "failure_status", "status %d of group %s instead of %d", s.id, s.group, first_failure.id);
      VF(!calls_after_failure, "calls_after_failure", "%d callbacks after the failure", calls_after_failure);
      VF(!list, "list_after_failure", "the list is not empty after a failure");
      for (int i = 0; i < probe_n; i++) VF(probes[i].freed == 1, "not_freed_after_failure", "event %d is not freed after the failure", i);
      failed = 1;
      break;
    }
    VF(!s.id, "status", "sp_seq status %d without a failing event", s.id);
  }
  sp_event_list_free(&list);
  VF(!list, "list", "the list is not empty after being freed");
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed == 1, "not_freed", "event %d is not freed", i);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
  if (!failed) vf_trivial();
  fp_reset();
  for (int i = 0; i < probe_n; i++) { fp_int(probes[i].prepared); fp_int(probes[i].next); fp_int(probes[i].calls); }
  fp_int(failed); fp_int(shape); fp_done();
}
