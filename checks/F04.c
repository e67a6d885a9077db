#include "seq.h"
/* rendering to blocks, files and plots, with failures */
#define RATE 1
void vf_init(void) { sp_initialize(0, 2, RATE); }
static uint32_t le(const uint8_t* b, int n) { uint32_t a = 0; for (int i = n - 1; i >= 0; i--) a = a << 8 | b[i]; return a; }
static uint32_t late_end;
static status_t late_prepare(sp_event_t* e) {
  status_t s = probe_prepare(e);
  e->end = late_end;
  return s;
}
void vf_body(void) {
  static const char* names[] = {"sp_render_range_block", "sp_render_range_file", "sp_render_file", "sp_render_plot"};
  int mode = vf_choose(4, "function"), shape = vf_choose(4, "event"), channels = vf_range(1, 2, "channels"), is_long = vf_choose(2, "long");
  uint32_t grid = vf_bound(4, 5), start, end, es, ee, block = 1;
  sp_event_t e;
  node_t *top, *a;
  vf_note(" %s", names[mode]);
  if (!mode) for (int i = 1; i < 256; i++) {
    sp_render_config_t c = sp_render_config(i, i * 300, i * 400, i & 1);
    VF(c.channel_count == i && c.rate == i * 300u && c.block_size == i * 400u && !c.display_progress == !(i & 1), "config", "configuration %d", i);
    c = sp_render_config(i, i * 64, i * 64, !(i & 1));
    VF(c.channel_count == i && c.rate == i * 64u && c.block_size == i * 64u && !c.display_progress == !!(i & 1), "config", "configuration %d", i);
  }
  probes_reset(); node_n = 0; absolute_times = 0; map_calls = 0;
  if (is_long) {
    grid = (uint32_t[]){301, 3001, 70001}[vf_choose(3, "duration")];
    es = grid / 10; ee = grid - vf_choose(2, "end");
  } else choose_range(0, grid + (mode == 2 ? 6 : 0), 0, &es, &ee);
  if (shape == 0 || shape == 3) top = node_new(PROBE, es, ee);
  else if (shape == 1) { top = node_new(GROUP, es, ee); top->n = 2; for (int i = 0; i < 2; i++) top->child[i] = choose_probe(2, 0); }
  else { top = node_new(MAP, es, ee); top->n = 1; top->child[0] = node_new(PROBE, 0, ee - es); }
  if (shape == 3 && mode < 2) vf_skip();
  if (is_long) { start = mode < 2 ? (uint32_t[]){0, 17, grid / 2, grid - 40}[vf_choose(4, "range start")] : 0; end = mode < 2 ? (uint32_t[]){(grid - 1) & ~63u, grid, start + 43, grid / 2 + 9}[vf_choose(4, "range end")] : ee; if (mode < 2 && start >= end) vf_skip(); }
  else if (mode < 2) { start = vf_choose(grid, "range start"); end = start + vf_choose(grid - start + 2, "range duration"); }
  else start = 0, end = ee;
  if (mode == 1) block = is_long ? (uint32_t[]){7, 64, 256, 4096, 66000}[vf_choose(5, "block size")] : vf_range(1, 4, "block size");
  vf_note(" %u to %u of", start, end); note_nodes(&top, 1);
  vf_track = vf_io_track = 1;
  node_build(top, 0, 0, &e);
  if (shape == 3) { late_end = ee; e.prepare = late_prepare; e.end = 0; }
  if (vf_choose(2, "fail")) {
    probe_t* p = probes + vf_choose(probe_n, "failing event");
    int call = vf_choose(4, "failing call");
    p->fail_id = 51;
    if (call) p->fail_call = call - 1; else p->fail_prepare = 1;
  }
  int n = end - start;
  uint32_t rate = mode == 1 ? 44100 : RATE;
  status_t s;
  sp_block_t out; memset(&out, 0, sizeof out);
  char path[600]; snprintf(path, sizeof path, "%s", vf_scratch("a.wav"));
  remove(path);
  sp_channel_count = channels;
  if (mode == 0) s = sp_render_range_block(e, start, end, sp_render_config(channels, rate, block, 0), &out);
  else if (mode == 1) s = sp_render_range_file(e, start, end, sp_render_config(channels, rate, block, 0), (uint8_t*)path);
  else if (mode == 2) s = sp_render_file(e, (uint8_t*)path);
  else s = sp_render_plot(e);
  vf_op();
  fp_reset(); fp_int(mode); fp_int(s.id); fp_int(n);
  VF(!vf_open_files(), "file_leak", "%d files left open", vf_open_files());
  for (int i = 0; i < probe_n; i++) VF(probes[i].freed, "not_freed", "event %d has not been freed, status %d", i, s.id);
  if (failures) {
    VF(s.id == first_failure.id && !strcmp((char*)s.group, FAIL_GROUP), "status", "status %d %s instead of %d of the failing event", s.id, s.group, first_failure.id);
    VF(!vf_live(), "leak", "%ld blocks not freed after a failure", vf_live());
    fp_done(); return;
  }
  VF(!s.id, "fails", "status %d %s without a failure", s.id, s.group);
  float* v = vf_mem((n * channels + 1) * sizeof *v);
  vf_track = vf_io_track = 0;
  int values = mode == 3 ? 1 : channels;
  if (mode == 0) {
    VF(out.channel_count == channels && out.size == (uint32_t)n, "block", "block of %d channels and %u samples", out.channel_count, out.size);
    for (int i = 0; i < n; i++) for (int c = 0; c < channels; c++) VF(vf_close(out.samples[c][i], node_value(top, start + i, c)), "block_samples", "sample %d of channel %d is %g instead of %g", i, c, out.samples[c][i], node_value(top, start + i, c));
    sp_block_free(&out);
  } else if (mode < 3) {
    static uint8_t b[1 << 20];
    FILE* f = fopen(path, "r");
    VF(f, "no_file", "no file written");
    int size = fread(b, 1, sizeof b, f);
    fclose(f);
    VF(size == 44 + 4 * n * channels, "file_size", "file has %d bytes instead of %d", size, 44 + 4 * n * channels);
    VF(le(b + 22, 2) == channels && le(b + 24, 4) == rate && le(b + 40, 4) == 4 * n * channels, "header", "header: %u channels, rate %u, data size %u", le(b + 22, 2), le(b + 24, 4), le(b + 40, 4));
    for (int i = 0; i < n; i++)
      for (int c = 0; c < channels; c++) {
        float x = node_value(top, start + i, c), y; memcpy(&y, b + 44 + 4 * (i * channels + c), 4);
        VF(x == y, "file_samples", "sample %d of channel %d is %g instead of %g", i, c, y, x);
      }
  } else {
    /* the command names the data file, which has one line per sample */
    char name[600], *p = strstr(vf_system_command, "/tmp/sp-plot");
    VF(vf_system_count == 1 && p, "plot_command", "%d commands, last: %s", vf_system_count, vf_system_command);
    snprintf(name, sizeof name, "%s", vf_scratch(p + 5));
    name[strlen(name) - strlen(strchr(p, '"'))] = 0;
    FILE* f = fopen(name, "r");
    VF(f, "no_plot", "no plot data file written");
    double x;
    for (int i = 0; i < n; i++) VF(fscanf(f, "%lf", &x) == 1 && vf_close(x, node_value(top, i, 0)), "plot_samples", "plot sample %d is %g instead of %g", i, x, node_value(top, i, 0));
    VF(fscanf(f, "%lf", &x) == EOF, "plot_size", "more than %d plot samples", n);
    fclose(f); remove(name);
  }
  for (int i = 0; i < n; i++) for (int c = 0; c < values; c++) fp_double(node_value(top, start + i, c));
  for (int i = 0; i < probe_n; i++) if (top->kind != GROUP) {
    probe_t* p = probes + i;
    uint32_t last = (end < ee ? end : ee) - es;
    if (!n) continue;
    if (es < end && start < ee) VF(p->started && p->next == last, "incomplete", "event generated to %u instead of %u", p->next, last);
    else VF(!p->started, "not_in_range", "event outside of the range is generated");
  }
  VF(!vf_live(), "memory_leak", "%ld blocks not freed", vf_live());
  fp_done();
}
