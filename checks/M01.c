#include "seq.h"
#include <sph-sp/helper.h>
/* the failure of every single allocation, or of all allocations from one on, in every allocating function and in complete renderings.
   scenarios return 1 if a failure has been reported and release what they own */
void vf_init(void) { sp_initialize(0, 2, 8); }
#define CHECK(a, name) do { status_t s_ = (a); vf_op(); if (s_.id) { reported = 1; \
    VF(vf_fail_count, "fails_" name, "%s fails with status %d %s without an allocation failure", name, s_.id, s_.group); VF(s_.group && s_.group[0], "group_" name, "status of %s without group", name); } \
  else VF(vf_fail_count == seen, "unreported_" name, "%s returns success although an allocation failed", name); seen = vf_fail_count; } while (0)
#define CHECK8(a, name) do { int s_ = (a); vf_op(); if (s_) { reported = 1; VF(vf_fail_count, "fails_" name, "%s fails with %d without an allocation failure", name, s_); } \
  else VF(vf_fail_count == seen, "unreported_" name, "%s returns success although an allocation failed", name); seen = vf_fail_count; } while (0)
#define OK (!reported)
static int reported;
static long seen;
static double sa[] = {3, 1, -2, 5, 4, 0.5, -1, 2, 2.5, 7, 6, 1.5}, amod[64];
static uint32_t ta[] = {3, 1, 2, 5, 4, 9, 7, 6, 8, 10, 11, 12}, fmod_[64];
static status_t wave(sp_event_t* e, uint32_t start, uint32_t end, int with_memory) {
  status_declare;
  sp_wave_event_config_t* c;
  memset(e, 0, sizeof *e);
  sp_event_t* ep = e;
  if ((status = sp_wave_event_config_new((&c))).id) return status;
  c->channel_config[0].amod = amod; c->channel_config[0].frq = 1; c->channel_config[1].use = 1;
  ep->start = start; ep->end = end;
  sp_wave_event(ep, c);
  if ((status = sp_event_memory_add(e, c)).id) { free(c); return status; }
  if (with_memory) {
    double* path;
    if ((status = sp_path_samples3(&path, end - start, 1, 0, 1, 0)).id) { sp_event_memory_free(e); return status; }
    if ((status = sp_event_memory_add(e, path)).id) { free(path); sp_event_memory_free(e); return status; }
    c->channel_config[0].amod = path;
  }
  return status;
}
static status_t noise(sp_event_t* e, uint32_t start, uint32_t end, int kind) {
  status_declare;
  sp_noise_event_config_t* c;
  memset(e, 0, sizeof *e);
  sp_event_t* ep = e;
  if ((status = sp_noise_event_config_new((&c))).id) return status;
  c->channel_config[0].amod = amod; c->channel_config[0].frq = 1; c->channel_config[0].wdt = 2; c->channel_config[0].trnl = c->channel_config[0].trnh = 4;
  if (kind) { c->channel_config[1].use = 1; c->channel_config[1].frq = 2; c->channel_config[1].trnl = c->channel_config[1].trnh = 3; c->resolution = 2; c->channel_config[0].fmod = kind > 1 ? fmod_ : 0; }
  ep->start = start; ep->end = end;
  sp_noise_event(ep, c);
  if ((status = sp_event_memory_add(e, c)).id) free(c);
  return status;
}
static status_t map_copy(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) { return map_triple(start, end, in, out, config); }
static status_t build(sp_event_t* e, int kind) {
  status_declare;
  sp_event_t c, *ep = e;
  sp_map_event_config_t* m;
  switch (kind) {
  case 0: return wave(e, 1, 5, 1);
  case 1: return noise(e, 0, 5, 0);
  case 2: return noise(e, 0, 5, 1);
  case 3: return noise(e, 1, 5, 2);
  case 4: case 5: /* group of wave, noise and group */
    memset(e, 0, sizeof *e);
    sp_group_event(ep);
    if ((status = wave(&c, 0, 3, kind == 5)).id) goto failed;
    if ((status = sp_group_add(e, c)).id) { sp_event_free(c); goto failed; }
    if ((status = noise(&c, 1, 4, kind == 5)).id) goto failed;
    if ((status = sp_group_append(e, c)).id) { sp_event_free(c); goto failed; }
    if (kind == 5) {
      if ((status = build(&c, 4)).id) goto failed;
      if ((status = sp_group_add(e, c)).id) { sp_event_free(c); goto failed; }
    }
    return status;
  default: /* map, isolated or not */
    memset(e, 0, sizeof *e);
    if ((status = sp_map_event_config_new((&m))).id) return status;
    if ((status = kind == 6 ? wave(&m->event, 0, 4, 1) : noise(&m->event, 0, 4, 1)).id) { free(m); return status; }
    m->map_generate = map_copy; m->isolate = kind != 8;
    if (kind == 8) m->map_generate = map_copy;
    ep->end = 4;
    sp_map_event(ep, m);
    if ((status = sp_event_memory_add(e, m)).id) { sp_event_free(m->event); free(m); }
    return status;
  }
failed:
  (e->free)(e);
  return status;
}
static int generator_fails(void* arguments, sp_sample_t** out, sp_time_t* len) { return 0; }
static status_t ir_f(void* arguments, sp_sample_t** out, sp_time_t* len) {
  status_declare;
  int n = *(uint8_t*)arguments;
  status = sp_samples_new(n, out);
  if (!status.id) { for (int i = 0; i < n; i++) (*out)[i] = i + 1; *len = n; }
  return status;
}
static void scenario(int k) {
  double* s = 0, *s2 = 0, out[16], out2[16]; uint32_t* t = 0, **tt = 0, *sizes = 0, n = 0;
  switch (k) {
  case 0: CHECK(sp_samples_new(4, &s), "sp_samples_new"); if (OK) { for (int i = 0; i < 4; i++) VF(s[i] == 0, "new_zero", "new samples are not zero"); free(s); } return;
  case 1: CHECK(sp_times_new(4, &t), "sp_times_new"); if (OK) free(t); return;
  case 2: CHECK(sp_samples_duplicate(sa, 5, &s), "sp_samples_duplicate"); if (OK) { VF(!memcmp(s, sa, 40), "duplicate", "differs"); free(s); } return;
  case 3: CHECK(sp_times_duplicate(ta, 5, &t), "sp_times_duplicate"); if (OK) { VF(!memcmp(t, ta, 20), "duplicate", "differs"); free(t); } return;
  case 4: CHECK(sp_times_constant(5, 3, &t), "sp_times_constant"); if (OK) free(t); return;
  case 5: t = vf_u32s(5); CHECK(sp_times_random_binary(5, t), "sp_times_random_binary"); return;
  case 6: t = vf_u32s(12); CHECK(sp_times_scale(ta, 5, 3, t), "sp_times_scale"); return;
  case 7: CHECK(sp_times_permutations(3, ta, 3, &tt, &n), "sp_times_permutations"); if (OK) { VF(n == 6, "permutations", "%u", n); for (uint32_t i = 0; i < n; i++) free(tt[i]); free(tt); } return;
  case 8: CHECK(sp_times_compositions(4, &tt, &n, &sizes), "sp_times_compositions"); if (OK) { for (uint32_t i = 0; i < n; i++) free(tt[i]); free(tt); free(sizes); } return;
  case 9: { t = malloc(3 * 4); if (!t) { reported = 1; return; } seen = vf_fail_count; t[0] = 1; t[1] = 2; t[2] = 3; CHECK(sp_times_to_samples_replace(t, 3, &s), "sp_times_to_samples_replace");
      if (OK) { VF(s[2] == 3, "to_samples", "%g", s[2]); free(s); } else { VF(t[0] == 1 && t[2] == 3, "input_lost", "the input has been changed"); free(t); } return; }
  case 10: { s = malloc(3 * 8); if (!s) { reported = 1; return; } seen = vf_fail_count; s[0] = 1; s[1] = 2; s[2] = 3; CHECK(sp_samples_to_times_replace(s, 3, &t), "sp_samples_to_times_replace");
      if (OK) { VF(t[2] == 3, "to_times", "%u", t[2]); free(t); } else { VF(s[0] == 1 && s[2] == 3, "input_lost", "the input has been changed"); free(s); } return; }
  case 11: CHECK8(sp_stat_times_median(ta, 5, out), "sp_stat_times_median"); return;
  case 12: CHECK8(sp_stat_samples_median(sa, 5, out), "sp_stat_samples_median"); return;
  case 13: case 14: { /* convolution filter whose response grows and shrinks */
      sp_convolution_filter_state_t* state = 0;
      uint8_t lengths[] = {2, 5, 3, 5, 12};
      double y[80] = {0};
      for (int i = 0, at = 0; i < 5; i++, at += 4) {
        uint8_t* argument = vf_mem(1); *argument = lengths[i];
        memset(out, 0, sizeof out);
        for (int r = 0; r < 2; r++) {
          /* a failed call can be repeated */
          int before = reported; reported = 0;
          CHECK(sp_convolution_filter(sa, 4, ir_f, argument, 1, &state, out), "sp_convolution_filter");
          if (OK) { reported = before; break; }
          if (vf_fail_sticky || k == 14 || r) { if (state) sp_convolution_filter_state_free(state); return; }
          memset(out, 0, sizeof out);
        }
        for (int a = 0; a < 4; a++) for (int b = 0; b < lengths[i]; b++) y[at + a + b] += sa[a] * (b + 1);
        for (int a = 0; a < 4; a++) VF(vf_close(out[a], y[at + a]), "filter_after_failure", "call %d sample %d is %g instead of %g", i, a, out[a], y[at + a]);
      }
      sp_convolution_filter_state_free(state); return; }
  case 15: case 16: {
      sp_convolution_filter_state_t* state = 0;
      for (int i = 0; i < 3 && OK; i++) {
        memset(out, 0, sizeof out);
        if (k == 15) CHECK(sp_windowed_sinc_lp_hp(sa, 6, 0.2, i == 1 ? 0.2 : 0.3, i == 2, &state, out), "sp_windowed_sinc_lp_hp");
        else CHECK(sp_windowed_sinc_bp_br(sa, 6, 0.1, 0.3, 0.3, i == 1 ? 0.2 : 0.3, i == 2, &state, out), "sp_windowed_sinc_bp_br");
      }
      if (state) sp_convolution_filter_state_free(state);
      return; }
  case 17: CHECK(sp_null_ir(&s, &n), "sp_null_ir"); if (OK) free(s); return;
  case 18: CHECK(sp_passthrough_ir(&s, &n), "sp_passthrough_ir"); if (OK) free(s); return;
  case 19: CHECK(sp_windowed_sinc_lp_hp_ir(0.2, 0.3, 1, &s, &n), "sp_windowed_sinc_lp_hp_ir"); if (OK) free(s); return;
  case 20: CHECK(sp_windowed_sinc_bp_br_ir(0.1, 0.3, 0.3, 0.2, 0, &s, &n), "sp_windowed_sinc_bp_br_ir"); if (OK) free(s); return;
  case 21: CHECK(sp_windowed_sinc_bp_br_ir(0.1, 0.3, 0.3, 0.2, 1, &s, &n), "sp_windowed_sinc_bp_br_ir"); if (OK) free(s); return;
  case 22: memcpy(out, sa, 96); memset(out2, 0, sizeof out2); CHECK8(sp_fft(12, out, out2), "sp_fft"); return;
  case 23: memcpy(out, sa, 96); memset(out2, 0, sizeof out2); CHECK8(sp_ffti(11, out, out2), "sp_ffti"); return;
  case 24: case 25: { sp_block_t b; memset(&b, 0, sizeof b); CHECK(sp_block_new(2, k == 24 ? 4 : 1, &b), "sp_block_new"); if (OK) sp_block_free(&b); return; }
  case 26: CHECK(sp_path_times4(&t, 8, 2, 5, 1, 2, 3, 4), "sp_path_times4"); if (OK) free(t); return;
  case 27: CHECK(sp_envelope_zero3(&s, 8, 0.5, 1), "sp_envelope_zero3"); if (OK) free(s); return;
  case 28: CHECK(sp_envelope_scaled3(&t, 8, 10, 0.5, 1, 2, 3), "sp_envelope_scaled3"); if (OK) free(t); return;
  case 29: { /* growing event memory */
      sp_event_t e; memset(&e, 0, sizeof e);
      for (int i = 0; i < 20 && OK; i++) {
        void* p = malloc(4); if (!p) { reported = 1; break; } seen = vf_fail_count;
        CHECK(sp_event_memory_add((&e), p), "sp_event_memory_add");
        if (!OK) free(p);
      }
      if (e.free) (e.free)(&e);
      return; }
  case 30: {
      sp_event_t e; memset(&e, 0, sizeof e);
      for (int i = 0; i < 4 && OK; i++) {
        CHECK(sp_event_memory_ensure(&e, 3 * (i + 1)), "sp_event_memory_ensure");
        for (int j = 0; j < 2 && OK; j++) { void* p = malloc(4); if (!p) { reported = 1; break; } seen = vf_fail_count; sp_event_memory_fixed_add((&e), p); }
      }
      if (e.free) (e.free)(&e);
      return; }
  case 31: {
      sp_event_list_t* l = 0; sp_event_t e; memset(&e, 0, sizeof e);
      for (int i = 0; i < 3; i++) { e.start = i & 1; CHECK(sp_event_list_add(&l, e), "sp_event_list_add"); }
      int count = 0; for (sp_event_list_t* a = l; a; a = a->next) count++;
      VF(count == 3 - vf_fail_count, "list_count", "%d elements with %ld failures", count, vf_fail_count);
      sp_event_list_free(&l); return; }
  case 32: {
      sp_event_t g, e, *ep = &g; memset(&g, 0, sizeof g); memset(&e, 0, sizeof e);
      sp_group_event(ep);
      for (int i = 0; i < 3; i++) {
        e.start = 0; e.end = 2;
        uint32_t before = g.end;
        int ok = reported;
        reported = 0;
        if (i == 1) { CHECK(sp_group_append(&g, e), "sp_group_append"); } else { CHECK(sp_group_add(&g, e), "sp_group_add"); }
        if (!OK) VF(g.end == before, "group_end", "a failed addition changes the end of the group");
        reported |= ok;
      }
      (g.free)(&g); return; }
  case 33: { void* p; CHECK(sp_wave_event_config_new(((sp_wave_event_config_t**)&p)), "sp_wave_event_config_new"); if (OK) free(p); return; }
  case 34: { void* p; CHECK(sp_noise_event_config_new(((sp_noise_event_config_t**)&p)), "sp_noise_event_config_new"); if (OK) free(p); return; }
  case 35: { void* p; CHECK(sp_map_event_config_new_n(2, ((sp_map_event_config_t**)&p)), "sp_map_event_config_new_n"); if (OK) free(p); return; }
  case 36: { uint8_t* p; CHECK(sph_helper_malloc_string(3, (&p)), "sph_helper_malloc_string"); if (OK) { VF(!p[3], "string_end", "string without end"); free(p); } return; }
  case 37: { int* p = 0; CHECK(sph_helper_calloc(8, (&p)), "sph_helper_calloc"); if (!OK) return; CHECK(sph_helper_realloc(16, (&p)), "sph_helper_realloc"); VF(p && p[1] == 0, "realloc", "memory lost"); free(p); return; }
  case 38: { int* p = 0; CHECK(sph_helper_malloc(8, (&p)), "sph_helper_malloc"); if (OK) free(p); return; }
  case 39: { /* the library itself, again */
      sp_deinitialize();
      CHECK(sp_initialize(0, 2, 8), "sp_initialize");
      sp_deinitialize();
      long fail = vf_fail_at, count = vf_fail_count, sticky = vf_fail_sticky;
      vf_fail_at = 0; vf_fail_sticky = 0; vf_track = 0;
      VF(!sp_initialize(0, 2, 8).id, "initialize_again", "sp_initialize fails after a failure");
      vf_track = 1; vf_fail_at = fail; vf_fail_sticky = sticky; vf_fail_count = count;
      return; }
  }
}
#define SCENARIOS 40
void vf_body(void) {
  for (int i = 0; i < 64; i++) { amod[i] = 0.5; fmod_[i] = i % 2; }
  int k = vf_choose(SCENARIOS + 9 * 3, "scenario");
  vf_fail_sticky = vf_choose(2, "all following allocations");
  int fail = 1 + vf_choose(vf_bound(70, 120), "failing allocation");
  reported = 0; seen = 0;
  probes_reset();
  fp_reset(); fp_int(k);
  long before = vf_mark();
  vf_track = vf_io_track = 1; vf_fail_at = fail;
  if (k < SCENARIOS) scenario(k);
  else {
    /* complete renderings */
    int kind = (k - SCENARIOS) / 3, how = (k - SCENARIOS) % 3;
    sp_event_t e;
    sp_event_list_t* list = 0;
    CHECK(build(&e, kind), "building");
    if (OK && how == 0) {
      CHECK(sp_event_list_add(&list, e), "sp_event_list_add");
      if (!OK) { sp_event_free(e); }
      else {
        sp_seq_events_prepare(&list);
        for (uint32_t t = 0; t < 12 && OK; t += 3) {
          sp_block_t b = exact_block(2, 3);
          CHECK(sp_seq(t, t + 3, b, &list), "sp_seq");
        }
        sp_event_list_free(&list);
      }
    } else if (OK && how == 1) {
      sp_block_t b; memset(&b, 0, sizeof b);
      CHECK(sp_render_range_block(e, 0, 8, sp_render_config(2, 8, 4, 0), &b), "sp_render_range_block");
      if (OK) sp_block_free(&b);
    } else if (OK) {
      char path[600]; snprintf(path, sizeof path, "%s", vf_scratch("a.wav"));
      CHECK(sp_render_range_file(e, 0, 8, sp_render_config(2, 8, 3, 0), (uint8_t*)path), "sp_render_range_file");
    }
  }
  vf_track = vf_io_track = 0;
  VF(!reported || vf_fail_count, "failure", "failure without an allocation failure");
  VF(!vf_live_since(before), "leak", "%ld blocks not freed with %ld failed allocations", vf_live_since(before), vf_fail_count);
  VF(!vf_open_files(), "file_leak", "%d files open", vf_open_files());
  if (!vf_fail_count) {
    vf_trivial();
    VF(vf_alloc_count < fail, "bound", "the failing allocation has not been reached");
    VF(fail < vf_bound(70, 120) || vf_alloc_count < fail, "bound", "more allocations than the bound");
  }
  fp_int(reported); fp_int(vf_fail_count ? fail : 0); fp_done();
}
