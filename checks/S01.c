#include "seq.h"
void vf_init(void) { sp_initialize(0, 2, 8); }
/* many events in a sequence or a group, rendered from any place in blocks of several sizes */
static void many(void) {
  static const int N[] = {40, 300};
  static const uint32_t FIRST[] = {0, 60, 131};
  static const uint32_t STEP[][4] = {{1, 1, 1, 1}, {7, 64, 3, 1}, {256, 1, 300, 2}, {1000, 1000, 1000, 1000}};
  int n = N[vf_choose(2, "events")], placement = vf_choose(4, "placement"), duration = vf_choose(4, "duration"), group = vf_choose(2, "group"), step = vf_choose(4, "steps"), channels = 1 + vf_choose(2, "channels");
  uint32_t t = FIRST[vf_choose(3, "first")], end = 0, start_of[300], end_of[300];
  sp_event_list_t* list = 0;
  sp_event_t e, g;
  memset(&g, 0, sizeof g);
  vf_track = 1;
  if (group) { sp_event_t* p = &g; sp_group_event(p); }
  for (int i = 0; i < n; i++) {
    uint32_t a = placement == 0 ? 1 : placement == 1 ? i + 1 : placement == 2 ? (uint32_t)(n - i) : 1 + i * 7 % 97, d = duration == 0 ? 1 : duration == 1 ? 400 : duration == 2 ? i % 13 : 1 + i * 5 % 31;
    start_of[i] = a; end_of[i] = a + d;
    if (a + d > end) end = a + d;
    probe_new(&e, a, a + d, 0);
    VF(!(group ? sp_group_add(&g, e) : sp_event_list_add(&list, e)).id, "add", "adding fails");
  }
  if (group) VF(!sp_event_list_add(&list, g).id, "add", "adding fails");
  sp_seq_events_prepare((&list));
  fp_reset();
  for (uint32_t k = 0, cut; t < end; t = cut, k++) {
    uint32_t size = STEP[step][k % 4];
    cut = t + size;
    sp_block_t out = exact_block(channels, size);
    block_start = t; block_end = cut;
    VF(!sp_seq(t, cut, out, &list).id, "status", "sp_seq fails");
    vf_op();
    for (int c = 0; c < channels; c++)
      for (uint32_t i = 0; i < size; i++) {
        double v = 0.25 * (1 + c);
        for (int j = 0; j < n; j++) if (t + i >= start_of[j] && t + i < end_of[j]) v += probe_value(j, t + i - start_of[j], c);
        VF(out.samples[c][i] == v, "samples", "channel %d time %u: %.17g instead of %.17g", c, t + i, out.samples[c][i], v);
        if (i % 16 == 0) fp_double(v);
      }
  }
  sp_event_list_free(&list);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
  fp_done();
}
/* groups in groups or maps in maps to a larger depth. every group has an event of its own */
static void nest(sp_event_t* e, int depth, int map, uint32_t onset, uint32_t duration) {
  sp_event_t c;
  memset(e, 0, sizeof *e);
  if (!depth) { probe_new(e, 0, duration, 0); return; }
  if (map) {
    sp_map_event_config_t* config;
    VF(!sp_map_event_config_new((&config)).id, "map_config", "sp_map_event_config_new fails");
    nest(&config->event, depth - 1, map, onset, duration);
    config->map_generate = map_triple;
    config->isolate = 1;
    sp_map_event(e, config);
    VF(!sp_event_memory_add(e, config).id, "memory_add", "sp_event_memory_add fails");
    e->start = 0; e->end = duration;
    return;
  }
  sp_group_event(e);
  nest(&c, depth - 1, map, onset, duration);
  c.start += onset; c.end += onset;
  VF(!sp_group_add(e, c).id, "add", "sp_group_add fails");
  probe_new(&c, 0, duration, 0);
  VF(!sp_group_add(e, c).id, "add", "sp_group_add fails");
}
static void nested(void) {
  int map = vf_choose(2, "map"), depth = map ? vf_range(2, 9, "depth") : vf_choose(2, "depth") ? 40 : vf_range(3, 9, "depth");
  uint32_t onset = map ? 0 : vf_choose(3, "onset"), duration = (uint32_t[]){1, 5, 60}[vf_choose(3, "duration")], step = (uint32_t[]){1, 3, 7, 200}[vf_choose(4, "step")], end = duration + onset * depth + 2;
  sp_event_list_t* list = 0;
  sp_event_t e;
  absolute_times = 0;
  vf_track = 1;
  nest(&e, depth, map, onset, duration);
  VF(e.end == duration + onset * depth, "end", "the outermost event ends at %u instead of %u", e.end, duration + onset * depth);
  uint32_t first = vf_choose(2, "first") * onset;
  VF(!sp_event_list_add(&list, e).id, "add", "adding fails");
  sp_seq_events_prepare((&list));
  fp_reset();
  for (uint32_t t = first; t < end; t += step) {
    sp_block_t out = exact_block(1, step);
    block_start = t; block_end = t + step;
    VF(!sp_seq(t, t + step, out, &list).id, "status", "sp_seq fails");
    vf_op();
    for (uint32_t i = 0; i < step; i++) {
      double v = 0, scale = 1;
      /* the innermost event has number 0, the event of the group with k levels below it number k */
      if (map) { for (int k = 0; k < depth; k++) scale *= 3; if (t + i < duration) v = scale * probe_value(0, t + i, 0); }
      else for (int k = 0; k <= depth; k++) {
        uint32_t a = onset * (k ? depth - k : depth);
        if (t + i >= a && t + i < a + duration) v += probe_value(k, t + i - a, 0);
      }
      VF(out.samples[0][i] == v + 0.25, "samples", "%d levels, time %u: %.17g instead of %.17g", depth, t + i, out.samples[0][i], v + 0.25);
      fp_double(v);
    }
  }
  sp_event_list_free(&list);
  for (int k = 0; k < probe_n; k++) VF(probes[k].freed == 1, "not_freed", "event %d is not freed", k);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
  fp_done();
}
/* one event generated in parts, rendered in up to four blocks */
static void parts(void) {
  int large = vf_choose(2, "large");
  uint32_t d = large ? 301 : vf_range(5, vf_bound(12, 18), "duration"), onset = vf_choose(3, "onset"), end = onset + d, t = 0, cut;
  uint32_t resolution = large ? (uint32_t[]){7, 64, 65, 150, 300}[vf_choose(5, "resolution")] : (uint32_t)vf_range(1, vf_bound(7, 12), "resolution");
  sp_event_list_t* list = 0;
  sp_event_t e;
  probe_new(&e, onset, end, 0)->resolution = resolution;
  vf_note("event %u-%u in parts of %u", onset, end, resolution);
  VF(!sp_event_list_add(&list, e).id, "add", "adding fails");
  sp_seq_events_prepare((&list));
  for (int blocks = 0; t < end; t = cut, blocks++) {
    cut = blocks == 3 ? end : large ? t + (uint32_t[]){64, 65, 128, 301, 400}[vf_choose(5, "block")] : (uint32_t)next_cut(t, end, "cut");
    vf_note(" block %u-%u", t, cut);
    sp_block_t out = exact_block(1, cut - t);
    block_start = t; block_end = cut;
    VF(!sp_seq(t, cut, out, &list).id, "status", "sp_seq fails");
    vf_op();
    for (uint32_t i = 0; i < cut - t; i++) EQ(out.samples[0][i], 0.25 + (t + i >= onset && t + i < end ? probe_value(0, t + i - onset, 0) : 0), "samples", "samples");
  }
  sp_event_list_free(&list);
}
void vf_body(void) {
  int kind = vf_choose(4, "kind");
  if (kind) { probes_reset(); if (kind == 1) many(); else if (kind == 2) nested(); else parts(); return; }
  node_t* top[3];
  sp_event_list_t* list = 0;
  status_t s;
  sp_event_t e;
  probes_reset();
  static const uint32_t BASE[] = {0, 0, 65400, 4294966700u};
  uint32_t large = vf_choose(4, "times"), k = large ? 130 : 1, base = BASE[large];
  uint32_t grid = large ? 2 : vf_bound(4, 5), end = base + (grid + 1) * k;
  int shape = vf_choose(SHAPES, "shape"), channels = 1 + vf_choose(2, "channels");
  if (shape > 1 && channels == 2 && shape != 5) vf_skip();
  int n = choose_tree(grid, shape, top);
  scale_tree(top, n, k, base);
  vf_track = 1;
  for (int i = 0; i < n; i++) {
    node_build(top[i], 0, 0, &e);
    s = sp_event_list_add(&list, e);
    VF(!s.id, "add", "status %d", s.id);
  }
  sp_seq_events_prepare((&list));
  note_nodes(top, n);
  uint32_t resolution = shape <= 1 ? vf_choose(4, "resolution") * (large ? 90 : 1) : 0;
  for (int i = 0; i < probe_n; i++) probes[i].resolution = resolution;
  uint32_t t = base + k * vf_choose(shape <= 1 ? 3 : 2, "first"), extra = shape <= 1 ? vf_choose(2, "extra") : 0, cut;
  fp_reset();
  for (; t < end; t = cut) {
    cut = base + k * next_cut((t - base) / k, (end - base) / k, "cut");
    sp_block_t out = exact_block(channels, cut - t + extra);
    block_start = t; block_end = cut;
    s = sp_seq(t, cut, out, &list);
    vf_op();
    VF(!s.id, "status", "sp_seq status %d for %u to %u", s.id, t, cut);
    for (int c = 0; c < channels; c++)
      for (uint32_t i = 0; i < cut - t + extra; i++) {
        double v = 0.25 * (1 + c);
        if (i < cut - t) for (int k = 0; k < n; k++) v += node_value(top[k], t + i, c);
        VF(out.samples[c][i] == v, "samples", "block %u to %u channel %d time %u: %.17g instead of %.17g", t, cut, c, t + i, out.samples[c][i], v);
        fp_double(v);
      }
  }
  sp_event_list_free(&list);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
  fp_done();
}
