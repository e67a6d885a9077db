/* failures while rendering in parallel, under all schedules */
#include <sph-sp/sph-sp.h>
#include "seq.h"
static int workers, idle;
static status_t watched_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e);
static status_t watched_prepare(sp_event_t* e) {
  VF(!idle, "still_running", "an event is prepared after rendering returned");
  status_t s = probe_prepare(e);
  if (!s.id) e->generate = watched_generate;
  return s;
}
static status_t watched_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  VF(!idle, "still_running", "an event is generated after rendering returned");
  status_t s = probe_generate(start, end, out, e);
  SCHED_POINT();
  VF(!idle, "still_running", "rendering returned while an event was being generated");
  return s;
}
static void add_probe(int parallel, sp_event_list_t** list, sp_event_t* group, uint32_t s, uint32_t e) {
  sp_event_t a;
  status_t st;
  probe_new(&a, s, e, 0);
  a.prepare = watched_prepare;
  st = group ? sp_group_add(group, a) : sp_event_list_add(list, a);
  VF(!st.id, "add", "status %d", st.id);
}
static void add_group(sp_event_list_t** list, sp_event_t* parent, int n, uint32_t s, uint32_t e) {
  sp_event_t a;
  sp_event_t* ap = &a;
  status_t st;
  memset(ap, 0, sizeof a);
  sp_group_parallel_event(ap);
  for (int i = 0; i < n; i++) add_probe(1, 0, ap, i & 1, 2 + (i & 1));
  a.start = s; a.end = e;
  st = parent ? sp_group_add(parent, a) : sp_event_list_add(list, a);
  VF(!st.id, "add", "status %d", st.id);
}
#define SHAPES_P 8
static void build(int shape, sp_event_list_t** list) {
  sp_event_t a;
  sp_event_t* ap = &a;
  status_t st;
  absolute_times = 0;
  switch (shape) {
  case 0: add_probe(1, list, 0, 0, 3); break;
  case 1: add_probe(1, list, 0, 0, 3); add_probe(1, list, 0, 1, 4); break;
  case 2: add_probe(1, list, 0, 0, 3); add_probe(1, list, 0, 1, 2); add_probe(1, list, 0, 2, 4); break;
  case 3: add_group(list, 0, 2, 0, 3); break;
  case 6: for (int i = 0; i < 9; i++) add_probe(1, list, 0, i % 3, 3 + i % 2); break;
  case 7: for (int i = 0; i < 40; i++) add_probe(1, list, 0, i % 3, 3 + i % 2); break;
  case 4: add_group(list, 0, 2, 0, 3); add_probe(1, list, 0, 0, 4); break;
  default:
    memset(ap, 0, sizeof a);
    sp_group_parallel_event(ap);
    add_group(0, ap, 1, 0, 3);
    add_probe(1, 0, ap, 1, 3);
    a.start = 0; a.end = 4;
    st = sp_event_list_add(list, a);
    VF(!st.id, "add", "status %d", st.id);
  }
  sp_seq_events_prepare(list);
}
void vf_init(void) {}
void vf_body(void) {
  sp_event_list_t* list = 0;
  status_t s;
  probes_reset();
  idle = 0;
  vf_horizon = 20000;
  vf_quiet = 1;
  workers = vf_range(1, vf_bound(2, 3), "workers");
  int shape = vf_choose(SHAPES_P, "shape");
  vf_track = 1;
  s = sp_initialize(workers, 1, 8);
  VF(!s.id, "initialize", "sp_initialize status %d", s.id);
  long live = vf_live();
  build(shape, &list);
  /* probes fail in their prepare or one of the two generate calls */
  int mode = vf_choose(3, "mode"), expected[PROBES], n = 0;
  int many = shape > 5;
  if (many && mode == 1) vf_skip();
  int which = mode ? -1 : many ? (probe_n - 1) * vf_choose(3, "which") / 2 : vf_choose(probe_n, "which");
  if (mode < 2) for (int i = 0; i < probe_n; i++) {
    int how = mode ? vf_choose(4, "how") : i == which ? 1 + vf_choose(3, "how") : 0;
    probes[i].fail_prepare = how == 1;
    probes[i].fail_call = how < 2 ? -1 : how - 2;
    n += how > 0;
    if (!many || how) vf_note("%s", how == 1 ? " prepare fails" : how ? " generate fails" : " works");
  }
  if (mode == 1 && n < 2) vf_skip();
  int fault = mode == 2 ? 1 + vf_choose(many ? 3 : 8, "failing allocation") : 0, sticky = fault ? vf_choose(2, "all later too") : 0;
  vf_note(" shape %d workers %d, allocation %d fails %d", shape, workers, fault, sticky);
  vf_preemptions = vf_bound(1, 2) - (mode == 1 && probe_n > 2) + (probe_n < 3 && !mode && workers < 3);
  vf_deviations = vf_bound(2, 3);
  if (many) { vf_preemptions = 0; vf_deviations = 1; }
  vf_quiet = 0;
  vf_fail_at = fault ? vf_alloc_count + fault : 0;
  vf_fail_sticky = sticky;
  fp_reset();
  int failed = 0;
  for (uint32_t t = 0, cut; t < (mode == 2 ? 6 : 4) && !failed; t = cut) { /* at last a block without events */
    cut = t + 2;
    sp_block_t out = exact_block(1, cut - t);
    block_start = t; block_end = cut;
    int failures_before = failures;
    long injected = vf_fail_count, unreported = memory_failures;
    idle = 0;
    s = sp_seq_parallel(t, cut, out, &list);
    idle = 1;
    fp_int(s.id);
    int probe_failed = failures > failures_before, memory_failed = vf_fail_count > injected, library_failed = vf_fail_count - injected > memory_failures - unreported;
    for (int i = 0; i < probe_n; i++) { fp_int(probes[i].prepared); fp_int(probes[i].freed); fp_int(probes[i].calls); }
    if (s.id) {
      failed = 1;
      VF(!list, "list_after_failure", "the list is not empty after a failure");
      int match = 0;
      for (int i = 0; i < probe_n; i++) match |= probes[i].failed && s.id == probes[i].fail_id && !strcmp((char*)s.group, FAIL_GROUP);
      if (!fault) VF(match, "failure_status", "status %d of group %s is not the status of a failed event", s.id, s.group);
      else VF(memory_failed, "failure_status", "status %d without a failure", s.id);
    } else {
      /* a failing allocation of a probe itself is not reported */
      VF(!library_failed, "unreported", "an allocation failed and sp_seq_parallel reports success");
      VF(!probe_failed, "unreported", "an event failed and sp_seq_parallel reports success");
    }
    for (int i = 0; i < 3; i++) SCHED_POINT();
  }
  vf_fail_at = 0; vf_fail_sticky = 0;
  if (fault && !vf_fail_count) vf_trivial();
  idle = 0;
  vf_quiet = 1;
  sp_event_list_free(&list);
  VF(!list, "list", "the list is not empty");
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed == 1, "not_freed", "event %d is not freed", i);
  VF(vf_live() == live, "leak", "%ld blocks of memory are not freed", vf_live() - live);
  sp_deinitialize();
  VF(!vf_threads_running() && !vf_threads_unjoined(), "threads", "%d threads running, %d not joined", vf_threads_running(), vf_threads_unjoined());
  fp_done();
}
