#include "seq.h"
void vf_init(void) { sp_initialize(0, 2, 8); }
static int isolate, map_fail, kind, map_status;
#define LONG 70001
static double prefill[2][LONG + 512];
static uint32_t expect_start, expect_end;
static node_t* sub;
static sp_block_t main_out;
/* checks what it is given and replaces or adds */
static status_t map_probe(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  VF(config == (void*)0x1234, "map_config", "config of the map function");
  VF(start == expect_start && end == expect_end, "map_times", "%u to %u instead of %u to %u", start, end, expect_start, expect_end);
  VF(in.channel_count == main_out.channel_count && out.channel_count == main_out.channel_count, "map_channels", "%d and %d channels", in.channel_count, out.channel_count);
  for (int c = 0; c < in.channel_count; c++)
    for (uint32_t i = 0; i < end - start; i++) {
      double v = node_value(sub, start + i, c);
      if (!isolate) v += out.samples[c] == in.samples[c] ? prefill[c][i] : 0;
      VF(in.samples[c][i] == v, "map_input", "input channel %d sample %u is %g instead of %g", c, i, in.samples[c][i], v);
    }
  if (!isolate) for (int c = 0; c < in.channel_count; c++) VF(in.samples[c] == out.samples[c], "map_shared", "input and output of a map event without isolation differ");
  if (map_fail-- == 0) { map_status = 1; return probe_status(77); }
  for (int c = 0; c < in.channel_count; c++)
    for (uint32_t i = 0; i < end - start; i++)
      if (isolate) out.samples[c][i] += 2 * in.samples[c][i]; else out.samples[c][i] = 5 * in.samples[c][i];
  return ok_status();
}
void vf_body(void) {
  probes_reset();
  isolate = vf_choose(2, "isolate");
  int channels = 1 + vf_choose(2, "channels");
  kind = vf_choose(3, "sub-event");
  int is_long = vf_choose(2, "long");
  uint32_t start, duration, end, step = 0;
  if (is_long) { start = vf_choose(3, "start") * 100; duration = (uint32_t[]){301, 5003, LONG}[vf_choose(3, "duration")]; step = (uint32_t[]){16, 100, 1024, 6000, LONG + 512}[vf_choose(5, "block")]; }
  else { start = vf_choose(3, "start"); duration = 1 + vf_choose(vf_bound(4, 5), "duration"); }
  end = start + duration + 1;
  if (is_long && duration == LONG && step < (uint32_t)vf_bound(6000, 100)) vf_skip();
  node_n = 0;
  if (kind == 0) sub = node_new(PROBE, 0, duration);
  else if (kind == 1) {
    sub = node_new(GROUP, 0, duration); sub->n = 2;
    for (int i = 0; i < 2; i++) sub->child[i] = choose_probe(3, 0);
  } else { sub = node_new(MAP, 0, duration); sub->n = 1; sub->child[0] = node_new(PROBE, 0, duration); }
  /* failure of the sub-event, of the map function, or of the allocation of the temporary block */
  int fail = vf_choose(5, "failure"), fail_call = fail > 1 ? vf_choose(3, "failing call") : 0, fail_child = 0;
  map_fail = fail == 3 ? fail_call : -1;
  map_status = 0;
  if (fail == 4 && !isolate) vf_skip();
  sp_event_t e;
  sp_event_t* ep = &e;
  status_t s;
  vf_track = 1;
  memset(&e, 0, sizeof e);
  sp_map_event_config_t* config;
  s = sp_map_event_config_new((&config));
  VF(!s.id, "status", "config_new %d", s.id);
  VF(!config->config && !config->isolate && !config->map_generate && !config->event.prepare && !config->event.free && !config->event.config, "config_new", "new configuration is not empty");
  node_build(sub, start, 0, &config->event);
  if (fail == 1 || fail == 2) {
    fail_child = probe_n > 1 ? vf_choose(probe_n, "failing event") : 0;
    if (fail == 1) probes[fail_child].fail_prepare = 1; else probes[fail_child].fail_call = fail_call;
  }
  config->map_generate = map_probe; config->config = (void*)0x1234; config->isolate = isolate;
  sp_map_event(ep, config);
  VF(e.config == config, "map_event", "config");
  s = sp_event_memory_add((&e), config);
  VF(!s.id, "status", "memory_add %d", s.id);
  e.start = start; e.end = start + duration;
  sp_map_event_config_t copy = sp_event_config_get(e, sp_map_event_config_t);
  VF(sp_event_duration(e) == duration && copy.map_generate == map_probe, "event_get", "duration %u instead of %u, or another configuration", sp_event_duration(e), duration);
  sp_event_list_t* list = 0;
  s = sp_event_list_add(&list, e);
  VF(!s.id, "status", "list_add %d", s.id);
  sp_seq_events_prepare((&list));
  vf_note(" from %u for %u", start, duration);
  if (kind == 0 && !fail && vf_choose(2, "free unprepared")) { sp_event_list_free(&list); goto end; }
  uint32_t cut;
  int failed = 0, calls = 0;
  fp_reset();
  for (uint32_t t = 0; t < end && !failed; t = cut) {
    cut = !is_long ? next_cut(t, end, "cut") : t + step < end ? t + step : end;
    main_out = exact_block(channels, cut - t);
    for (int c = 0; c < channels; c++) for (uint32_t i = 0; i < cut - t; i++) main_out.samples[c][i] = 0.125 * (1 + (t + i) % 3) * (1 + c);
    uint32_t o = start > t ? start - t : 0;
    for (int c = 0; c < channels; c++) for (uint32_t i = o; i < cut - t; i++) prefill[c][i - o] = main_out.samples[c][i];
    int active = start < cut && start + duration > t;
    expect_start = t > start ? t - start : 0; expect_end = (cut < start + duration ? cut : start + duration) - start;
    block_start = t; block_end = cut;
    int block_fails = fail == 4 && active && calls++ == fail_call;
    if (block_fails) { vf_fail_at = vf_alloc_count + 1; if (!expect_start) vf_fail_sticky = 1; }
    s = sp_seq(t, cut, main_out, &list);
    vf_fail_sticky = 0; vf_fail_at = 0;
    vf_op();
    if (block_fails) {
      VF(s.id && vf_fail_count, "memory", "status %d without memory", s.id);
      failed = 1; break;
    }
    if (failures) { VF(s.id == first_failure.id && !calls_after_failure, "failure_status", "status %d instead of %d, %d calls after the failure", s.id, first_failure.id, calls_after_failure); failed = 1; break; }
    if (map_status) { VF(s.id == 77, "failure_status", "status %d instead of the status of the map function", s.id); failed = 1; break; }
    VF(!s.id, "status", "status %d", s.id);
    for (int c = 0; c < channels; c++) for (uint32_t i = 0; i < cut - t; i++) {
      uint32_t a = t + i;
      double p = 0.125 * (1 + a % 3) * (1 + c), v = p;
      if (a >= start && a < start + duration) { double x = node_value(sub, a - start, c); v = isolate ? p + 2 * x : 5 * (p + x); }
      VF(main_out.samples[c][i] == v, "samples", "channel %d time %u: %.17g instead of %.17g", c, a, main_out.samples[c][i], v);
      fp_double(v);
    }
  }
  if (fail && !failed) vf_trivial();
  sp_event_list_free(&list);
  fp_int(failed); fp_done();
end:
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed == 1, "not_freed", "event %d is not freed", i);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
}
