#ifndef vf_seq_h
#define vf_seq_h
/* event trees made of probes: user events that record how they are called and add unambiguous values.
   needs the public interface of the library only */
#include "common.h"
#ifdef VF_SCHED
/* the checks are not instrumented: accesses of shared memory are reported to the monitors explicitly */
#include "vf_sched.h"
extern void __tsan_read8(void*);
extern void __tsan_write8(void*);
#define SHARED_WRITE(a) __tsan_write8(a)
#define SHARED_READ(a) __tsan_read8(a)
#define SCHED_POINT() vf_sched_point()
#else
#define SHARED_WRITE(a) ((void)0)
#define SHARED_READ(a) ((void)0)
#define SCHED_POINT()
#endif
#define PROBES 1220
#define FAIL_GROUP "probe"
typedef struct {
  int id, prepared, freed, calls, failed;
  uint32_t next; /* end of the previous generate call */
  int started;
  uint32_t start, end; /* absolute */
  int fail_prepare, fail_call; /* status id of a failing prepare. number of the failing call, -1 for none */
  int fail_id;
  uint32_t resolution; /* generates in parts if not zero */
  uint32_t new_duration; /* set by prepare if not zero */
  void* memory;
} probe_t;
static probe_t probes[PROBES];
static int probe_n;
static uint32_t block_start, block_end; /* range currently being rendered */
static int in_order = 1; /* calls of an event must be consecutive */
static int absolute_times = 1;
static int failures; /* injected so far */
static status_t first_failure;
static int calls_after_failure;
static long memory_failures; /* failed allocations of the probes */
static long generate_io_count; /* stdio calls before the last generate call */
static status_t probe_status(int id) { status_t s; s.id = id; s.group = (uint8_t*)FAIL_GROUP; return s; }
static status_t ok_status(void) { status_t s; s.id = 0; s.group = (uint8_t*)""; return s; }
static double probe_value(int id, uint32_t t, int channel) {
  double v = (double)((t + 1) * (probe_n > 12 ? id * 10 + 3 : 1ull << (id * 4)));
  return channel ? -0.5 * v : v;
}
static void probe_free(sp_event_t* e) {
  probe_t* p = e->config;
  VF(!p->freed, "freed_twice", "event %d is freed twice", p->id);
  p->freed = 1;
  SHARED_WRITE(&p->memory);
  e->free = 0;
  if (p->memory) { free(p->memory); p->memory = 0; }
  sp_event_memory_free(e);
}
static status_t probe_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e);
static status_t probe_unprepared(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  VF(0, "not_prepared", "an event is generated with the function it had before being prepared");
  return ok_status();
}
/* sets generate, free and possibly the end of the event */
static status_t probe_prepare(sp_event_t* e) {
  probe_t* p = e->config;
  VF(!p->prepared, "prepared_twice", "event %d is prepared again", p->id);
  VF(!p->freed, "prepare_after_free", "event %d is prepared after being freed", p->id);
  if (absolute_times) VF(p->start < block_end && (block_start < p->end), "prepared_early", "event %d (%u to %u) is prepared while rendering %u to %u", p->id, p->start, p->end, block_start, block_end);
  if (failures) calls_after_failure++;
  e->free = probe_free;
  SCHED_POINT();
  SHARED_WRITE(&p->memory);
  if (p->fail_prepare) { p->failed = 1; if (!failures++) first_failure = probe_status(p->fail_id); return probe_status(p->fail_id); }
  p->prepared = 1;
  if (e->generate == probe_unprepared) e->generate = probe_generate;
  if (p->new_duration) { e->end = e->start + p->new_duration; p->end = p->start + p->new_duration; }
  p->memory = malloc(1 + p->id);
  memory_failures += !p->memory;
  return ok_status();
}
static status_t probe_part(uint32_t size, uint32_t block_i, uint32_t event_i, sp_block_t out, sp_event_t* e) {
  probe_t* p = e->config;
  if (p->resolution) VF(size <= p->resolution, "part_size", "event %d is generated in a part of %u with parts of %u", p->id, size, p->resolution);
  for (uint32_t c = 0; c < out.channel_count; c++)
    for (uint32_t i = 0; i < size; i++) SHARED_WRITE(out.samples[c] + block_i + i), out.samples[c][block_i + i] += probe_value(p->id, event_i + i, c);
  return ok_status();
}
static status_t probe_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  probe_t* p = e->config;
  vf_op();
  SCHED_POINT();
  SHARED_WRITE(&p->memory);
  generate_io_count = vf_io_count;
  VF(p->prepared == 1, "not_prepared", "event %d is generated without having been prepared", p->id);
  VF(!p->freed, "generate_after_free", "event %d is generated after being freed", p->id);
  VF(!e->prepare, "prepare_kept", "event %d keeps its prepare function", p->id);
  VF(start <= end && end <= p->end - p->start, "times", "event %d of duration %u is generated from %u to %u", p->id, p->end - p->start, start, end);
  if (in_order) {
    if (p->started) VF(start == p->next, "not_consecutive", "event %d is generated from %u after having been generated to %u", p->id, start, p->next);
    p->started = 1;
    p->next = end;
  }
  if (failures) calls_after_failure++;
  if (p->calls++ == p->fail_call) { p->failed = 1; if (!failures++) first_failure = probe_status(p->fail_id); return probe_status(p->fail_id); }
#ifndef VF_SCHED
  if (p->resolution) return sp_event_block_generate(p->resolution, probe_part, start, end, out, e);
#endif
  return probe_part(end - start, 0, start, out, e);
}
static probe_t* probe_new(sp_event_t* e, uint32_t start, uint32_t end, uint32_t absolute) {
  probe_t* p = probes + probe_n;
  memset(p, 0, sizeof *p);
  p->id = probe_n++;
  p->start = absolute + start; p->end = absolute + end;
  p->fail_call = -1;
  p->fail_id = 40 + p->id;
  memset(e, 0, sizeof *e);
  e->start = start; e->end = end;
  e->prepare = probe_prepare; e->generate = probe_unprepared; e->free = probe_free;
  e->config = p;
  return p;
}
static void probes_reset(void) {
  memset(probes, 0, (probe_n < PROBES ? probe_n : PROBES) * sizeof *probes);
  probe_n = 0; block_start = block_end = 0; in_order = 1; absolute_times = 1; failures = 0; memory_failures = 0; calls_after_failure = 0; generate_io_count = 0;
}
/* trees */
enum { PROBE, GROUP, MAP };
typedef struct node { int kind, n; uint32_t start, end; struct node* child[3]; probe_t* probe; uint32_t factor; } node_t;
static node_t node_pool[16];
static int node_n;
static node_t* node_new(int kind, uint32_t start, uint32_t end) {
  node_t* a = node_pool + node_n++;
  memset(a, 0, sizeof *a);
  a->kind = kind; a->start = start; a->end = end;
  return a;
}
static double node_value(node_t* a, uint32_t t, int channel) {
  if (t < a->start || t >= a->end) return 0;
  t -= a->start;
  double v = 0;
  if (a->kind == PROBE) return probe_value(a->probe->id, t, channel);
  for (int i = 0; i < a->n; i++) v += node_value(a->child[i], t, channel);
  return a->kind == MAP ? 3 * v : v;
}
static int map_calls;
static status_t map_triple(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  map_calls++;
  for (uint32_t c = 0; c < in.channel_count; c++)
    for (uint32_t i = 0; i < end - start; i++) SHARED_READ(in.samples[c] + i), SHARED_WRITE(out.samples[c] + i), out.samples[c][i] += 3 * in.samples[c][i];
  return ok_status();
}
/* a sub-event of a map event has the times of the map event */
static void node_build(node_t* a, uint32_t absolute, int parallel, sp_event_t* e) {
  sp_event_t c;
  sp_event_t* ep = e;
  status_t s;
  if (a->kind == PROBE) { a->probe = probe_new(e, a->start, a->end, absolute); return; }
  memset(e, 0, sizeof *e);
  if (a->kind == GROUP) {
    if (parallel) { sp_group_parallel_event(ep); } else { sp_group_event(ep); }
    for (int i = 0; i < a->n; i++) {
      node_build(a->child[i], absolute + a->start, parallel, &c);
      s = sp_group_add(e, c);
      VF(!s.id, "group_add", "sp_group_add status %d", s.id);
    }
  } else {
    sp_map_event_config_t* config;
    s = sp_map_event_config_new((&config));
    VF(!s.id, "map_config", "sp_map_event_config_new status %d", s.id);
    node_build(a->child[0], absolute + a->start, parallel, &config->event);
    config->map_generate = map_triple;
    config->isolate = 1;
    sp_map_event(ep, config);
    s = sp_event_memory_add(e, config);
    VF(!s.id, "memory_add", "sp_event_memory_add status %d", s.id);
  }
  e->start = a->start; e->end = a->end;
}
static void choose_range(uint32_t lo, uint32_t hi, int empty, uint32_t* start, uint32_t* end) {
  *start = lo + vf_choose(hi - lo, "start");
  *end = empty ? *start + vf_choose(hi - *start + 1, "duration") : *start + 1 + vf_choose(hi - *start, "duration");
}
static node_t* choose_probe(uint32_t hi, int empty) {
  uint32_t s, e;
  choose_range(0, hi, empty, &s, &e);
  return node_new(PROBE, s, e);
}
/* one of several shapes of event trees with all placements in a time grid. returns the top level nodes */
#define SHAPES 7
static int choose_tree(uint32_t grid, int shape, node_t** top) {
  node_t *a, *b;
  uint32_t s, e;
  node_n = 0;
  switch (shape) {
  case 0: top[0] = choose_probe(grid, 1); return 1;
  case 1: for (int i = 0; i < 2; i++) top[i] = choose_probe(grid, 1); return 2;
  case 2: for (int i = 0; i < 3; i++) top[i] = choose_probe(grid, i == 0); return 3;
  case 3: /* group of two and a probe */
    choose_range(0, grid, 0, &s, &e);
    a = node_new(GROUP, s, e); a->n = 2;
    for (int i = 0; i < 2; i++) a->child[i] = choose_probe(3, 0);
    top[0] = a; top[1] = choose_probe(grid < 4 ? grid : 3, 0); return 2;
  case 4: /* group in group */
    choose_range(0, grid, 0, &s, &e);
    a = node_new(GROUP, s, e); a->n = 2;
    choose_range(0, 3, 0, &s, &e);
    b = node_new(GROUP, s, e); b->n = 1;
    b->child[0] = choose_probe(2, 0);
    a->child[0] = b; a->child[1] = choose_probe(2, 0);
    top[0] = a; return 1;
  case 5: /* map and a probe */
    choose_range(0, grid, 0, &s, &e);
    a = node_new(MAP, s, e); a->n = 1;
    a->child[0] = node_new(PROBE, 0, e - s);
    top[0] = a; top[1] = choose_probe(grid, 0); return 2;
  default: /* map of a group */
    choose_range(0, grid, 0, &s, &e);
    a = node_new(MAP, s, e); a->n = 1;
    b = node_new(GROUP, 0, e - s); b->n = 2;
    for (int i = 0; i < 2; i++) b->child[i] = choose_probe(3, 0);
    a->child[0] = b; top[0] = a; return 1;
  }
}
/* longer and later events */
static void scale_tree(node_t** top, int n, uint32_t scale, uint32_t base) {
  for (int i = 0; i < n; i++) {
    top[i]->start = top[i]->start * scale + base;
    top[i]->end = top[i]->end * scale + base;
    scale_tree(top[i]->child, top[i]->n, scale, 0);
  }
}
static sp_block_t exact_block(int channels, uint32_t size) {
  sp_block_t b;
  memset(&b, 0, sizeof b);
  b.channel_count = channels; b.size = size;
  for (int c = 0; c < channels; c++) { b.samples[c] = vf_doubles(size); for (uint32_t i = 0; i < size; i++) b.samples[c][i] = 0.25 * (1 + c); }
  return b;
}
static void note_nodes(node_t** top, int n) {
  static const char* names[] = {"event", "group", "map"};
  for (int i = 0; i < n; i++) {
    vf_note(" %s %u-%u", names[top[i]->kind], top[i]->start, top[i]->end);
    if (top[i]->n) { vf_note("("); note_nodes(top[i]->child, top[i]->n); vf_note(")"); }
  }
}
/* events that set their end when they are prepared */
static void resized(status_t (*seq)(sp_time_t, sp_time_t, sp_block_t, sp_event_list_t**), const char* key, uint32_t grid) {
  sp_event_list_t* list = 0;
  sp_event_t e;
  uint32_t start_of[2], end_of[2], new_end[2], end = grid + 4;
  int n = vf_range(1, 2, "events"), ready[2] = {0, 0};
  for (int i = 0; i < n; i++) {
    uint32_t a, b, d = vf_range(1, vf_bound(4, 5), "new duration");
    choose_range(0, grid, 0, &a, &b);
    probe_new(&e, a, b, 0)->new_duration = d;
    start_of[i] = a; end_of[i] = b; new_end[i] = a + d;
    vf_note(" event %u-%u set to end at %u", a, b, a + d);
    VF(!sp_event_list_add(&list, e).id, "add", "adding fails");
  }
  sp_seq_events_prepare((&list));
  for (uint32_t t = vf_choose(3, "first"), cut; t < end; t = cut) {
    cut = next_cut(t, end, "cut");
    vf_note(" block %u-%u", t, cut);
    sp_block_t out = exact_block(1, cut - t);
    block_start = t; block_end = cut;
    VF(!seq(t, cut, out, &list).id, "status", "rendering fails");
    vf_op();
    int freed[2];
    for (int k = 0; k < n; k++) {
      freed[k] = end_of[k] <= t;
      if (!freed[k] && start_of[k] < cut) { ready[k] = 1; end_of[k] = new_end[k]; }
    }
    for (uint32_t i = 0; i < cut - t; i++) {
      double v = 0.25;
      for (int k = 0; k < n; k++) if (ready[k] && t + i >= start_of[k] && t + i < end_of[k]) v += probe_value(k, t + i - start_of[k], 0);
      VF(out.samples[0][i] == v, key, "time %u: %.17g instead of %.17g", t + i, out.samples[0][i], v);
    }
    for (int k = 0; k < n; k++) VF(freed[k] == probes[k].freed, "freed", "event %d is %sfreed when rendering from %u", k, freed[k] ? "not " : "", t);
  }
  sp_event_list_free(&list);
  for (int k = 0; k < n; k++) VF(probes[k].freed == 1, "not_freed", "event %d is not freed", k);
}
#endif
