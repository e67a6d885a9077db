#include "seq.h"
/* one failing or short stdio call at every position of writing, reading and rendering to a file */
void vf_init(void) { sp_initialize(0, 2, 8); }
static status_t status;
static long injected_before;
#define CALL(a, name) do { status = (a); vf_op(); if (vf_io_failed[0]) { \
    VF(status.id, "unreported_" name, "%s returns success although %s failed", name, vf_io_failed); \
    VF(status.group && status.group[0], "group", "%s failure without group", name); return 1; } \
  VF(!status.id, "fails_" name, "%s status %d without a failure", name, status.id); } while (0)
static int write_history(const char* path, int blocks, double** samples, int channels) {
  sp_file_t file;
  CALL(sp_file_open_write((uint8_t*)path, channels, 44100, &file), "sp_file_open_write");
  for (int i = 0; i < blocks; i++) {
    status = sp_file_write(&file, samples, 2); vf_op();
    if (vf_io_failed[0]) {
      VF(status.id, "unreported_write", "sp_file_write returns success although %s failed", vf_io_failed);
      sp_file_close_write(&file);
      return 1;
    }
    VF(!status.id, "fails_write", "sp_file_write status %d", status.id);
  }
  sp_file_close_write(&file); vf_op();
  return 0;
}
static int read_history(const char* path, int blocks, double** samples) {
  sp_file_t file;
  CALL(sp_file_open_read((uint8_t*)path, &file), "sp_file_open_read");
  for (int i = 0; i < blocks; i++) {
    status = sp_file_read(file, 2, samples); vf_op();
    if (vf_io_failed[0]) {
      VF(status.id, "unreported_read", "sp_file_read returns success although %s failed", vf_io_failed);
      VF(status.id != sp_s_id_file_eof, "read_as_end", "a read error is reported as the end of the file");
      sp_file_close_read(file);
      return 1;
    }
    VF(!status.id, "fails_read", "sp_file_read status %d", status.id);
  }
  sp_file_close_read(file);
  return 0;
}
static void put(uint8_t* b, uint32_t a, int n) { for (int i = 0; i < n; i++) b[i] = a >> (8 * i); }
void vf_body(void) {
  int history = vf_choose(3, "history"), blocks = vf_choose(vf_bound(4, 6), "blocks"), channels = vf_range(1, 2, "channels");
  int fail = vf_choose(2, "fail") ? 1 + vf_choose(vf_bound(24, 32), "failing call") : 0, kind = fail ? vf_choose(2, "short transfer") : 0;
  char path[600]; snprintf(path, sizeof path, "%s", vf_scratch("a.wav"));
  double* samples[2];
  for (int c = 0; c < 2; c++) { samples[c] = vf_doubles(2); samples[c][0] = c; samples[c][1] = 0.5; }
  int file_exists = vf_choose(2, "exists");
  remove(path);
  probes_reset();
  if (file_exists || history == 1) {
    /* a file with an additional chunk */
    uint8_t b[400]; memset(b, 0, sizeof b);
    memcpy(b, "RIFF", 4); memcpy(b + 8, "WAVEfmt ", 8); put(b + 16, 16, 4); put(b + 20, 3, 2); put(b + 22, channels, 2); put(b + 24, 44100, 4); put(b + 34, 32, 2);
    int p = 36;
    if (file_exists) { memcpy(b + 36, "fact", 4); put(b + 40, 8, 4); memcpy(b + 44, "data", 4); put(b + 48, blocks * 2 * 4 * channels, 4); p = 52; }
    memcpy(b + p, "data", 4); put(b + p + 4, blocks * 2 * 4 * channels, 4); p += 8 + blocks * 2 * 4 * channels;
    FILE* f = fopen(path, "w");
    VF(f && fwrite(b, p, 1, f), "setup", "scratch file");
    fclose(f);
  }
  sp_event_t e; node_n = 0;
  uint32_t block = 2, end = blocks * 2 + 1;
  node_t* node = node_new(PROBE, 0, end);
  if (history == 2) { absolute_times = 0; node_build(node, 0, 0, &e); }
  vf_track = vf_io_track = 1; vf_io_fail_at = fail; vf_io_kind = kind;
  vf_io_failed[0] = 0;
  int failed;
  if (history == 0) failed = write_history(path, blocks, samples, channels);
  else if (history == 1) failed = read_history(path, blocks, samples);
  else {
    status = sp_render_range_file(e, 0, end, sp_render_config(channels, 44100, block, 0), (uint8_t*)path);
    failed = vf_io_failed[0] != 0; vf_op();
    VF(node->probe->freed, "event_not_freed", "the event is not freed after rendering with status %d", status.id);
  }
  vf_track = vf_io_track = 0;
  fp_reset(); fp_int(history); fp_int(failed); fp_int(status.id); fp_add(vf_io_failed, strlen(vf_io_failed));
  if (history == 2) {
    if (failed) {
      /* closing has no result: the samples of the last block are written by the first call after generating it */
      int closing = vf_io_fail_at > generate_io_count + !strcmp(vf_io_failed, "fwrite") && node->probe->next == end;
      if (generate_io_count && vf_io_fail_at == generate_io_count + 1 && !strcmp(vf_io_failed, "fwrite")) closing = 0;
      if (!closing) VF(status.id, "unreported_render", "rendering returns success although %s failed", vf_io_failed);
    } else VF(!status.id, "fails_render", "rendering fails with status %d without a failure", status.id);
  }
  if (fail && !vf_io_failed[0]) vf_trivial();
  VF(!vf_open_files(), "file_leak", "%d files left open", vf_open_files());
  VF(!vf_live(), "memory_leak", "%ld blocks not freed", vf_live());
  fp_done();
}
