#include "seq.h"
void vf_init(void) { sp_initialize(0, 1, 8); }
/* events that set their end when prepared */
static uint32_t late_duration[PROBES];
static status_t late_prepare(sp_event_t* e) {
  status_t s = probe_prepare(e);
  probe_t* p = e->config;
  e->end = e->start + late_duration[p->id];
  return s;
}
typedef struct { uint32_t start, end; int id; } placed_t;
static placed_t placed[PROBES];
static int placed_n, nested;
/* builds a group of operations and returns its end */
static uint32_t fill(sp_event_t* g, uint32_t offset, int depth, int max) {
  uint32_t end = 0;
  int count = vf_range(depth ? 1 : 0, max, "operations");
  for (int i = 0; i < count; i++) {
    sp_event_t e;
    status_t s;
    memset(&e, 0, sizeof e);
    int append = vf_choose(2, "append"), kind = vf_choose(depth < 1 && !nested ? 3 : 2, "kind");
    /* an event with unknown end is added at zero */
    uint32_t start = kind == 1 ? 0 : vf_choose(depth ? 2 : 3, "start"), duration = kind == 2 ? 0 : 1 + vf_choose(2, "duration"), at;
    if (kind == 2) {
      /* nested group */
      sp_event_t* ep = &e;
      nested = 1;
      ep->config = ep; /* not used */
      sp_group_event(ep);
      at = append ? end + start : start;
      uint32_t inner = fill(&e, offset + at, depth + 1, 2);
      e = sp_event_schedule(e, start, 0, 0);
      VF(e.start == start && e.end == start + inner, "schedule_group", "group scheduled at %u with end %u is from %u to %u", start, inner, e.start, e.end);
      duration = inner;
      vf_note(" group at %u to %u;", start, start + inner);
    } else {
      probe_t* p = probe_new(&e, 0, 0, 0);
      if (kind == 1) {
        /* unknown end: is prepared when added */
        e.prepare = late_prepare;
        late_duration[p->id] = duration;
      } else {
        void* config = !depth && vf_choose(2, "config") ? p : 0;
        if (config) e.config = 0;
        e = sp_event_schedule(e, start, duration, config);
        VF(e.start == start && e.end == start + duration && e.config == p, "schedule", "event scheduled at %u for %u is from %u to %u", start, duration, e.start, e.end);
        VF(e.prepare == probe_prepare && e.generate == probe_unprepared && e.free == probe_free, "schedule_functions", "functions of a scheduled event");
      }
      at = append ? end + start : start;
      p->start = offset + at; p->end = offset + at + duration;
      placed[placed_n++] = (placed_t){offset + at, offset + at + duration, p->id};
      vf_note(" %s %u+%u;", append ? "append" : "add", start, duration);
    }
    absolute_times = 0;
    s = append ? sp_group_append(g, e) : sp_group_add(g, e);
    VF(!s.id, "status", "status %d", s.id);
    vf_op();
    uint32_t e_end = at + duration;
    if (append || e_end > end) end = e_end;
    VF(g->end == end && g->start == 0, "group_end", "group ends at %u instead of %u", g->end, end);
  }
  return end;
}
/* many events */
static void many_body(void) {
  int n = (int[]){9, 40, 300}[vf_choose(3, "count")], append = vf_choose(3, "append"), order = vf_choose(3, "order"), step = (int[]){1, 7, 64, 5000}[vf_choose(4, "block")], onset = vf_choose(2, "onset") * 70;
  uint32_t end = 0;
  status_t s;
  sp_event_t g, e;
  sp_event_t* gp = &g;
  memset(&g, 0, sizeof g);
  vf_track = 1;
  gp->config = gp;
  sp_group_event(gp);
  absolute_times = 0;
  for (int i = 0; i < n; i++) {
    uint32_t start = order == 0 ? i * 2 : order == 1 ? (n - i) * 2 : i * 7 % n, duration = 1 + i % 5, at;
    int a = append == 2 ? i & 1 : append;
    if (a) start %= 3;
    probe_t* p = probe_new(&e, 0, 0, 0);
    e = sp_event_schedule(e, start, duration, 0);
    e.config = p;
    at = a ? end + start : start;
    p->start = at; p->end = at + duration;
    placed[placed_n++] = (placed_t){at, at + duration, p->id};
    s = a ? sp_group_append(&g, e) : sp_group_add(&g, e);
    VF(!s.id, "status", "status %d", s.id);
    if (a || at + duration > end) end = at + duration;
    VF(g.end == end && g.start == 0, "group_end", "group ends at %u instead of %u", g.end, end);
  }
  static const uint32_t T[] = {0, 1, 300, 5003, 70001, 1000000007};
  for (int i = 0; i < 6 * 6 * 6; i++) {
    uint32_t o = T[i % 6], d = T[i / 6 % 6], at = T[i / 36];
    memset(&e, 0, sizeof e);
    e.start = at; e.end = at + 3;
    e = sp_event_schedule(e, o, d, i & 1 ? &g : 0);
    VF(e.start == at + o && e.end == at + 3 + o + d && e.config == (i & 1 ? &g : 0), "schedule", "event from %u to %u scheduled at %u for %u more is from %u to %u", at, at + 3, o, d, e.start, e.end);
  }
  g = sp_event_schedule(g, onset, 0, 0);
  VF(g.start == onset && g.end == onset + end, "schedule", "group from %u to %u", g.start, g.end);
  sp_event_list_t* list = 0;
  s = sp_event_list_add(&list, g);
  VF(!s.id, "status", "status %d", s.id);
  sp_seq_events_prepare((&list));
  uint32_t size = onset + end + 2;
  sp_block_t out = exact_block(1, size);
  double* x = vf_doubles(size);
  for (uint32_t t = 0; t < size; t++) x[t] = 0.25;
  for (int i = 0; i < n; i++) for (uint32_t t = placed[i].start; t < placed[i].end; t++) x[onset + t] += probe_value(placed[i].id, t - placed[i].start, 0);
  for (uint32_t t = 0, cut; t < size; t = cut) {
    cut = t + step < size ? t + step : size;
    block_start = t; block_end = cut;
    s = sp_seq(t, cut, sp_block_with_offset(out, t), &list);
    VF(!s.id, "status", "status %d", s.id);
    vf_op();
  }
  sp_event_list_free(&list);
  vf_track = 0;
  fp_reset();
  for (uint32_t t = 0; t < size; t++) { VF(out.samples[0][t] == x[t], "samples", "time %u: %.17g instead of %.17g", t, out.samples[0][t], x[t]); fp_double(x[t]); }
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed, "not_freed", "event %d", i);
  VF(!vf_live(), "leak", "%ld blocks", vf_live());
  fp_done();
}
void vf_body(void) {
  sp_event_t g;
  status_t s;
  sp_event_t* gp = &g;
  probes_reset();
  memset(&g, 0, sizeof g);
  placed_n = 0; nested = 0;
  if (vf_choose(2, "many")) { many_body(); return; }
  vf_track = 1;
  gp->config = gp;
  sp_group_event(gp);
  /* memory that the group owns is freed with it */
  int owned = vf_choose(3, "owned memory");
  for (int i = 0; i < owned; i++) {
    s = sp_event_memory_add(&g, malloc(3));
    VF(!s.id, "status", "status %d", s.id);
  }
  uint32_t end = fill(&g, 0, 0, vf_bound(2, 3)), onset = vf_choose(3, "onset") * 2;
  sp_event_list_t* list = 0;
  g = sp_event_schedule(g, onset, 0, 0);
  VF(g.start == onset && g.end == onset + end, "schedule", "group from %u to %u instead of %u to %u", g.start, g.end, onset, onset + end);
  s = sp_event_list_add(&list, g);
  VF(!s.id, "status", "status %d", s.id);
  sp_seq_events_prepare((&list));
  uint32_t size = onset + end + 2, cut;
  sp_block_t out = exact_block(1, size);
  int step = 1 + vf_choose(4, "block");
  if (step == 4) {
    /* abandoned before anything is rendered */
    sp_event_list_free(&list);
    vf_track = 0;
    for (int i = 0; i < probe_n; i++) VF(probes[i].freed, "not_freed", "event %d", i);
    VF(!vf_live(), "leak", "%ld blocks of a group that is not rendered", vf_live());
    fp_reset(); fp_int(end); fp_done();
    return;
  }
  for (uint32_t t = 0; t < size; t = cut) {
    cut = step == 3 ? size : t + step < size ? t + step : size;
    block_start = t; block_end = cut;
    s = sp_seq(t, cut, sp_block_with_offset(out, t), &list);
    VF(!s.id, "status", "status %d", s.id);
  }
  sp_event_list_free(&list);
  vf_track = 0;
  fp_reset();
  for (uint32_t t = 0; t < size; t++) {
    double v = 0.25;
    for (int i = 0; i < placed_n; i++)
      if (t >= onset + placed[i].start && t < onset + placed[i].end) v += probe_value(placed[i].id, t - onset - placed[i].start, 0);
    VF(out.samples[0][t] == v, "samples", "time %u: %.17g instead of %.17g", t, out.samples[0][t], v);
    fp_double(v);
  }
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed, "not_freed", "event %d", i);
  VF(!vf_live(), "leak", "%ld blocks", vf_live());
  fp_done();
}
