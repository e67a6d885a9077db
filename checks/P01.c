/* parallel rendering under all schedules against the sum of the events */
#include <sph-sp/sph-sp.h>
#include "seq.h"
#define CHANNELS 2
static int workers;
static void start_library(int n) {
  workers = n;
  status_t s = sp_initialize(n, CHANNELS, 8);
  VF(!s.id, "initialize", "sp_initialize status %d", s.id);
}
static void stop_library(void) {
  sp_deinitialize();
  VF(!vf_threads_running() && !vf_threads_unjoined(), "threads", "%d threads running, %d not joined", vf_threads_running(), vf_threads_unjoined());
}
static void check_gone(node_t** top, int n, uint32_t absolute, uint32_t start, uint32_t end, int parent_gone) {
  for (int i = 0; i < n; i++) {
    node_t* a = top[i];
    int gone = parent_gone || absolute + a->end <= start;
    if (a->kind == PROBE) {
      probe_t* p = a->probe;
      VF(gone || !p->freed, "freed_early", "event %d (%u to %u) is freed when rendering from %u", p->id, p->start, p->end, start);
      VF(!gone || p->freed, "freed_late", "event %d (%u to %u) is not freed after rendering from %u", p->id, p->start, p->end, start);
      VF(end > p->start || !p->prepared, "prepared_early", "event %d (%u to %u) is prepared after rendering to %u", p->id, p->start, p->end, end);
    } else check_gone(a->child, a->n, absolute + a->start, start, end, gone);
  }
}
/* renders 0 to end in parallel in all partitions */
static void render(node_t** top, int n, uint32_t end, int channels, int cuts) {
  sp_event_list_t* list = 0;
  sp_event_t e;
  status_t s;
  long live = vf_live();
  for (int i = 0; i < n; i++) { node_build(top[i], 0, 1, &e); s = sp_event_list_add(&list, e); VF(!s.id, "add", "status %d", s.id); }
  sp_seq_events_prepare((&list));
  note_nodes(top, n);
  vf_note(" workers %d", workers);
  uint32_t t = 0, cut;
  fp_reset();
  while (t < end) {
    cut = cuts ? next_cut(t, end, "cut") : end;
    if (cut < end) cuts--;
    vf_note(" block %u-%u", t, cut);
    sp_block_t out = exact_block(channels, cut - t);
    block_start = t; block_end = cut;
    s = sp_seq_parallel(t, cut, out, &list);
    VF(!s.id, "status", "sp_seq_parallel status %d", s.id);
    for (int c = 0; c < channels; c++) for (uint32_t i = 0; i < cut - t; i++) {
      double v = 0.25 * (1 + c);
      for (int k = 0; k < n; k++) v += node_value(top[k], t + i, c);
      SHARED_READ(out.samples[c] + i);
      VF(out.samples[c][i] == v, "output", "channel %d, time %u is %.17g instead of %.17g", c, t + i, out.samples[c][i], v);
    }
    check_gone(top, n, 0, t, cut, 0);
    for (int i = 0; i < probe_n; i++) { fp_int(probes[i].prepared); fp_int(probes[i].freed); fp_int(probes[i].next); fp_int(probes[i].calls); }
    fp_int(t); fp_int(cut);
    t = cut;
  }
  sp_event_list_free(&list);
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed == 1, "not_freed", "event %d is not freed", i);
  VF(vf_live() == live, "leak", "%ld blocks of memory are not freed", vf_live() - live);
  fp_done();
}
static node_t* probe_at(uint32_t s, uint32_t e) { return node_new(PROBE, s, e); }
static node_t* group_of(uint32_t s, uint32_t e, node_t* a, node_t* b) {
  node_t* g = node_new(GROUP, s, e);
  g->child[g->n++] = a;
  if (b) g->child[g->n++] = b;
  return g;
}
static node_t* map_of(uint32_t s, uint32_t e, node_t* a) { node_t* m = node_new(MAP, s, e); m->n = 1; m->child[0] = a; return m; }
#define TREES 9
static int tree(int i, node_t** top) {
  node_n = 0;
  switch (i) {
  case 0: top[0] = group_of(0, 3, probe_at(0, 2), probe_at(1, 3)); return 1;
  case 1: top[0] = group_of(1, 4, probe_at(0, 3), probe_at(1, 2)); top[1] = probe_at(0, 3); return 2;
  case 2: top[0] = group_of(0, 4, group_of(1, 3, probe_at(0, 2), 0), 0); return 1;
  case 3: top[0] = group_of(0, 2, probe_at(0, 2), 0); top[1] = group_of(1, 3, probe_at(0, 2), 0); return 2;
  case 4: top[0] = map_of(1, 3, probe_at(0, 2)); top[1] = probe_at(0, 4); return 2;
  case 5: top[0] = map_of(0, 3, group_of(0, 3, probe_at(0, 2), probe_at(1, 3))); return 1;
  case 6: top[0] = group_of(0, 4, group_of(0, 4, group_of(0, 3, probe_at(0, 2), 0), 0), 0); return 1;
  case 7: top[0] = group_of(0, 4, map_of(0, 3, group_of(0, 3, probe_at(1, 3), 0)), probe_at(2, 4)); return 1;
  default: top[0] = group_of(0, 4, group_of(0, 2, probe_at(0, 1), probe_at(1, 2)), group_of(1, 3, probe_at(0, 2), 0)); return 1;
  }
}
/* the events of the library */
static sp_wave_event_config_t wave_config[3];
static double amod[2][8], wave_table[8], fmod_[8];
static void wave_new(int i, uint32_t s, uint32_t e, sp_event_t* out) {
  sp_event_t* ep = out;
  sp_wave_event_config_t* c = wave_config + i;
  *c = sp_wave_event_config_defaults();
  c->wvf = wave_table; c->wvf_size = 8;
  c->channel_config[0].amod = amod[i & 1];
  c->channel_config[0].frq = 1 + i;
  c->channel_config[1].use = i == 1;
  c->channel_config[1].amp = 0.5;
  c->channel_config[1].frq = 3;
  memset(ep, 0, sizeof *ep);
  ep->prepare = sp_wave_event_prepare; ep->generate = sp_wave_event_generate;
  ep->start = s; ep->end = e; ep->config = c;
}
static void build_waves(int n, int kind, sp_event_list_t** list) {
  sp_event_t e, g;
  sp_event_t* gp = &g;
  status_t s;
  memset(gp, 0, sizeof g);
  if (kind == 1) { sp_group_parallel_event(gp); } else if (kind) { sp_group_event(gp); }
  for (int i = 0; i < n; i++) {
    wave_new(i, i & 1, 3 + (i & 1), &e);
    s = kind ? sp_group_add(&g, e) : sp_event_list_add(list, e);
    VF(!s.id, "add", "status %d", s.id);
  }
  if (kind) { s = sp_event_list_add(list, g); VF(!s.id, "add", "status %d", s.id); }
  sp_seq_events_prepare(list);
}
static void waves(void) {
  sp_event_list_t* list = 0;
  int n = vf_range(2, 3, "events"), kind = vf_choose(2, "in group");
  uint32_t cut = vf_range(1, 4, "cut");
  for (int i = 0; i < 8; i++) { amod[0][i] = 0.5 + i; amod[1][i] = 1.0 / (1 + i); wave_table[i] = 3 * i % 7 - 2; }
  vf_note("%d wave events, in group %d, cut %u, %d workers", n, kind, cut, workers);
  sp_block_t a = exact_block(CHANNELS, 4), b = exact_block(CHANNELS, 4);
  long live = vf_live();
  build_waves(n, 2 * kind, &list);
  status_t s = sp_seq(0, 4, a, &list);
  VF(!s.id, "status", "sp_seq status %d", s.id);
  sp_event_list_free(&list);
  list = 0;
  build_waves(n, kind, &list);
  s = sp_seq_parallel(0, cut, b, &list);
  VF(!s.id, "status", "sp_seq_parallel status %d", s.id);
  if (cut < 4) { s = sp_seq_parallel(cut, 4, sp_block_with_offset(b, cut), &list); VF(!s.id, "status", "sp_seq_parallel status %d", s.id); }
  sp_event_list_free(&list);
  fp_reset();
  for (int c = 0; c < CHANNELS; c++) { same_doubles(b.samples[c], a.samples[c], 4, "output", "parallel and sequential rendering of wave events"); fp_doubles(b.samples[c], 4); }
  VF(vf_live() == live, "leak", "%ld blocks of memory are not freed", vf_live() - live);
  fp_done();
}
static const char* seed_race(uintptr_t a) {
  return a + 8 > (uintptr_t)&sp_random_state && a < (uintptr_t)(&sp_random_state + 1) ? "noise_seed_race" : "race";
}
static void build_noise(int n, int kind, sp_event_list_t** list) {
  sp_event_t e, g;
  sp_event_t *ep = &e, *gp = &g;
  status_t s;
  sp_noise_event_config_t* c;
  memset(gp, 0, sizeof g);
  if (kind == 1) { sp_group_parallel_event(gp); } else if (kind) { sp_group_event(gp); }
  for (int i = 0; i < n + 1; i++) {
    if (i < n) {
      s = sp_noise_event_config_new((&c));
      VF(!s.id, "config", "status %d", s.id);
      c->channel_config[0].amod = amod[i];
      c->channel_config[0].trnl = c->channel_config[0].trnh = 4;
      c->channel_config[0].frq = 1; c->channel_config[0].wdt = 2;
      memset(ep, 0, sizeof e);
      sp_noise_event(ep, c);
      e.start = i; e.end = i + 3;
      s = sp_event_memory_add((&e), c);
      VF(!s.id, "memory_add", "status %d", s.id);
    } else wave_new(0, 0, 3, &e);
    s = kind ? sp_group_add(&g, e) : sp_event_list_add(list, e);
    VF(!s.id, "add", "status %d", s.id);
  }
  if (kind) { s = sp_event_list_add(list, g); VF(!s.id, "add", "status %d", s.id); }
  sp_seq_events_prepare(list);
}
static void noise(void) {
  sp_event_list_t* list = 0;
  int n = vf_range(1, 2, "noise events"), kind = vf_choose(2, "in group");
  uint32_t cut = vf_range(2, 4, "cut");
  for (int i = 0; i < 8; i++) { amod[0][i] = 0.5 + i; amod[1][i] = 1.0 / (1 + i); wave_table[i] = 3 * i % 7 - 2; }
  vf_note("%d noise events and a wave event, in group %d, cut %u, %d workers", n, kind, cut, workers);
  sp_block_t a = exact_block(CHANNELS, 4), b = exact_block(CHANNELS, 4);
  long live = vf_live();
  sp_random_state = sp_random_state_new(9);
  build_noise(n, 2 * kind, &list);
  status_t s = sp_seq(0, cut, a, &list);
  VF(!s.id, "status", "sp_seq status %d", s.id);
  s = sp_seq(cut, 4, sp_block_with_offset(a, cut), &list);
  VF(!s.id, "status", "sp_seq status %d", s.id);
  sp_event_list_free(&list);
  list = 0;
  sp_random_state = sp_random_state_new(9);
  build_noise(n, kind, &list);
  vf_race_key = seed_race;
  s = sp_seq_parallel(0, cut, b, &list);
  VF(!s.id, "status", "sp_seq_parallel status %d", s.id);
  if (cut < 4) { s = sp_seq_parallel(cut, 4, sp_block_with_offset(b, cut), &list); VF(!s.id, "status", "sp_seq_parallel status %d", s.id); }
  sp_event_list_free(&list);
  fp_reset();
  for (int c = 0; c < CHANNELS; c++) { same_doubles(b.samples[c], a.samples[c], 4, "output", "parallel and sequential rendering of noise events"); fp_doubles(b.samples[c], 4); }
  VF(vf_live() == live, "leak", "%ld blocks of memory are not freed", vf_live() - live);
  fp_done();
}
/* many events. few schedules: at most one deviation from running the threads in turn */
static void many(int n, int group, uint32_t duration) {
  sp_event_list_t* list = 0;
  sp_event_t e, g, *gp = &g;
  uint32_t start_of[1200], end_of[1200], end = 0;
  int block = vf_choose(2, "block") ? duration ? 70001 : 256 : duration ? 3000 : 17;
  vf_note("%d events, in group %d, block %d, %d workers", n, group, block, workers);
  memset(gp, 0, sizeof g);
  if (group) { sp_group_parallel_event(gp); }
  long live = vf_live();
  for (int i = 0; i < n; i++) {
    start_of[i] = 1 + i * 7 % 23; end_of[i] = start_of[i] + 1 + i * 5 % 12;
    if (i == 3 && n <= 40) end_of[i] += 270;
    if (duration) end_of[i] += duration - 1000 * i;
    if (end_of[i] > end) end = end_of[i];
    probe_new(&e, start_of[i], end_of[i], 0);
    VF(!(group ? sp_group_add(&g, e) : sp_event_list_add(&list, e)).id, "add", "adding fails");
  }
  if (group) VF(!sp_event_list_add(&list, g).id, "add", "adding fails");
  sp_seq_events_prepare((&list));
  for (uint32_t t = 0, cut; t < end; t = cut) {
    cut = t + block;
    sp_block_t out = exact_block(1, block);
    block_start = t; block_end = cut;
    VF(!sp_seq_parallel(t, cut, out, &list).id, "status", "sp_seq_parallel fails");
    for (uint32_t i = 0; i < (uint32_t)block; i++) {
      double v = 0.25;
      for (int k = 0; k < n; k++) if (t + i >= start_of[k] && t + i < end_of[k]) v += probe_value(k, t + i - start_of[k], 0);
      VF(out.samples[0][i] == v, "output", "time %u is %.17g instead of %.17g", t + i, out.samples[0][i], v);
    }
  }
  sp_event_list_free(&list);
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed == 1, "not_freed", "event %d is not freed", i);
  VF(vf_live() == live, "leak", "%ld blocks of memory are not freed", vf_live() - live);
}
void vf_init(void) {}
void vf_body(void) {
  node_t* top[3];
  int n = 0;
  vf_horizon = 20000;
  vf_quiet = 1;
  probes_reset();
  node_n = 0;
  switch (vf_choose(5, "part")) {
  case 0: {
    static const uint32_t times[][2] = {{0, 3}, {0, 1}, {1, 2}, {2, 4}, {1, 4}};
    n = vf_range(0, 3, "events");
    int w = vf_range(1, vf_bound(2, 3), "workers"), first = 0;
    for (int i = 0; i < n; i++) {
      int k = n > 2 && !vf_thorough() ? first + vf_choose(LEN(times) - first, "times") : vf_choose(LEN(times), "times");
      first = k;
      top[i] = probe_at(times[k][0], times[k][1]);
    }
    int channels = vf_range(1, 2, "channels");
    int cuts = n > 2 ? 0 : vf_bound(1, 2);
    vf_track = 1;
    start_library(w);
    vf_preemptions = n > 2 || w > 2 ? 1 : 2 + (vf_thorough() && n < 2);
    vf_quiet = 0;
    render(top, n, 4, channels, cuts);
    break;
  }
  case 1: {
    int w = vf_range(1, 3, "workers"), t = vf_choose(TREES, "tree");
    n = tree(t, top);
    vf_track = 1;
    start_library(w);
    vf_preemptions = w > 1 ? 1 : vf_bound(1, 2);
    vf_quiet = 0;
    render(top, n, 4, 1, vf_bound(1, 2));
    break;
  }
  case 4: {
    int w = vf_range(1, 2, "workers");
    vf_track = 1;
    start_library(w);
    vf_preemptions = 0;
    vf_quiet = 0;
    long live = vf_live();
    resized(sp_seq_parallel, "output", vf_bound(2, 3));
    VF(vf_live() == live, "leak", "%ld blocks of memory are not freed", vf_live() - live);
    break;
  }
  case 3: {
    static const int N[] = {9, 40, 300, 3, 2, 1200};
    int k = vf_choose(6, "events"), group = vf_choose(2, "in group"), w = vf_range(1, 3, "workers");
    vf_horizon = 2000000;
    vf_track = 1;
    start_library(w);
    vf_preemptions = 0;
    vf_deviations = k == 0;
    vf_quiet = 0;
    many(N[k], group, k == 3 ? 5003 : k == 4 ? 70001 : 0);
    break;
  }
  default: {
    int w = vf_range(1, 2, "workers"), kind = vf_choose(2, "kind");
    vf_track = 1;
    start_library(w);
    vf_preemptions = vf_bound(1, 2);
    vf_quiet = 0;
    if (kind) noise(); else waves();
  }
  }
  vf_quiet = 1;
  stop_library();
}
