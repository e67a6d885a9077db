#include "seq.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
/* events whose end has passed at the start of the latest rendered block must have been freed, no other events */
static void check_freed(node_t** top, int n, uint32_t absolute, uint32_t start, int parent_gone) {
  for (int i = 0; i < n; i++) {
    node_t* a = top[i];
    int gone = parent_gone || absolute + a->end <= start;
    if (a->kind == PROBE) {
      VF(gone || !a->probe->freed, "freed_early", "event %d (%u to %u) is freed when rendering from %u", a->probe->id, a->probe->start, a->probe->end, start);
      VF(!gone || a->probe->freed, "freed_late", "event %d (%u to %u) is not freed after rendering from %u", a->probe->id, a->probe->start, a->probe->end, start);
    } else check_freed(a->child, a->n, absolute + a->start, start, gone);
  }
}
/* many events in a sequence or in a group */
static void many(void) {
  static const int N[] = {40, 300}, BLOCK[] = {1, 50, 256, 1000};
  int n = N[vf_choose(2, "events")], placement = vf_choose(4, "placement"), duration = vf_choose(4, "duration"), block = BLOCK[vf_choose(4, "block")], group = vf_choose(2, "group");
  uint32_t end = 0, start_of[300], end_of[300];
  sp_event_list_t* list = 0;
  sp_event_t e, g;
  memset(&g, 0, sizeof g);
  vf_track = 1;
  if (group) { sp_event_t* p = &g; sp_group_event(p); }
  for (int i = 0; i < n; i++) {
    uint32_t a = placement == 0 ? 1 : placement == 1 ? i + 1 : placement == 2 ? (uint32_t)(n - i) : 1 + i * 7 % 97, d = duration == 0 ? 1 : duration == 1 ? 400 : duration == 2 ? i % 13 : 1 + i * 5 % 31;
    start_of[i] = a; end_of[i] = a + d;
    if (a + d > end) end = a + d;
    probe_new(&e, a, a + d, 0);
    VF(!(group ? sp_group_add(&g, e) : sp_event_list_add(&list, e)).id, "add", "adding fails");
  }
  if (group) VF(!sp_event_list_add(&list, g).id, "add", "adding fails");
  sp_seq_events_prepare((&list));
  int abandon = vf_choose(2, "abandon");
  for (uint32_t t = 0, cut; t < end; t = cut) {
    cut = t + block;
    sp_block_t out = exact_block(1, block);
    block_start = t; block_end = cut;
    VF(!sp_seq(t, cut, out, &list).id, "status", "sp_seq fails");
    for (uint32_t i = 0; i < (uint32_t)block; i++) {
      double v = 0.25;
      for (int k = 0; k < n; k++) if (t + i >= start_of[k] && t + i < end_of[k]) v += probe_value(k, t + i - start_of[k], 0);
      VF(out.samples[0][i] == v, "samples", "time %u: %.17g instead of %.17g", t + i, out.samples[0][i], v);
    }
    for (int k = 0; k < n; k++) {
      if (end_of[k] > t) VF(!probes[k].freed, "freed_early", "event %d (%u to %u) is freed when rendering from %u", k, start_of[k], end_of[k], t);
      else VF(probes[k].freed, "freed_late", "event %d (%u to %u) is not freed after rendering from %u", k, start_of[k], end_of[k], t);
    }
    if (abandon && t >= end / 2) break;
  }
  sp_event_list_free(&list);
  for (int k = 0; k < n; k++) VF(probes[k].freed == 1, "not_freed", "event %d is not freed", k);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
}
void vf_body(void) {
  int kind = vf_choose(3, "kind");
  if (kind) { probes_reset(); if (kind == 1) many(); else { vf_track = 1; resized(sp_seq, "samples", 4); vf_track = 0; VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live()); } return; }
  node_t* top[3];
  sp_event_list_t* list = 0;
  status_t s;
  sp_event_t e;
  probes_reset();
  uint32_t large = vf_choose(3, "times"), k = large ? 130 : 1, base = large == 2 ? 4294965000u : 0, grid = large ? 2 : vf_bound(4, 5), end = base + k * (grid + 2), before = 0;
  int shape = vf_choose(SHAPES, "shape");
  int n = choose_tree(grid, shape, top);
  scale_tree(top, n, k, base);
  vf_track = 1;
  for (int i = 0; i < n; i++) { node_build(top[i], 0, 0, &e); s = sp_event_list_add(&list, e); VF(!s.id, "add", "status %d", s.id); }
  sp_seq_events_prepare((&list));
  note_nodes(top, n);
  uint32_t t = base + k * vf_choose(2, "first"), cut;
  int blocks = 0;
  /* abandon after each number of blocks */
  while (t < end && (!blocks || !vf_choose(2, "abandon"))) {
    cut = base + k * next_cut((t - base) / k, (end - base) / k, "cut");
    blocks++;
    sp_block_t out = exact_block(1, cut - t);
    block_start = t; block_end = cut;
    uint32_t previous[PROBES];
    for (int i = 0; i < probe_n; i++) previous[i] = probes[i].next;
    s = sp_seq(t, cut, out, &list);
    vf_op();
    VF(!s.id, "status", "sp_seq status %d", s.id);
    if (shape <= 2 || shape == 5) {
      for (int i = 0; i < probe_n; i++) {
        probe_t* p = probes + i;
        int overlaps = p->start < cut && p->end > t && p->end > p->start;
        VF(!overlaps || p->prepared, "prepared_late", "event %d (%u to %u) is not prepared after rendering %u to %u", i, p->start, p->end, t, cut);
        uint32_t to = (cut < p->end ? cut : p->end) - p->start;
        VF(!overlaps || p->next == to, "generated", "event %d (%u to %u) is generated to %u instead of %u when rendering %u to %u", i, p->start, p->end, p->next, to, t, cut);
      }
      check_freed(top, n, 0, t, 0);
    } else check_freed(top, n, 0, t, 0);
    fp_reset();
    for (int i = 0; i < probe_n; i++) { fp_int(probes[i].prepared); fp_int(probes[i].freed); fp_int(probes[i].next); fp_int(probes[i].calls); }
    fp_int(t); fp_int(cut); fp_done();
    before = t;
    t = cut;
  }
  sp_event_list_free(&list);
  VF(!list, "list", "the list is not empty after being freed");
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed == 1, "not_freed", "event %d is not freed", i);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
}
