#include "common.h"
/* wav files: writing in all splits, the bytes of the file, reading in all splits */
void vf_init(void) { sp_initialize(0, 1, 8); }
static const double VALUES[] = {0, 1, -1, 0.1, -0.75, 1e-10, 123456.789, -0.0};
static const uint32_t RATES[] = {8, 44100, 192000};
static uint32_t le(const uint8_t* b, int n) { uint32_t a = 0; for (int i = n - 1; i >= 0; i--) a = a << 8 | b[i]; return a; }
void vf_body(void) {
  static const int CN[] = {1, 2, 17, 255}, FN[] = {301, 70003, 256}, STEP[] = {1, 255, 256, 70000, 299, 64, 65, 4096, 4097};
  int large = vf_choose(2, "large"), step = 0;
  int channels = large ? CN[vf_choose(4, "channels")] : vf_range(1, vf_bound(3, 4), "channels"), n = large ? FN[vf_choose(channels < 17 ? 3 : 1, "samples")] : vf_choose(vf_bound(6, 8), "samples"), shift = large ? 0 : vf_choose(n < 4 ? 8 : 2, "values");
  if (large) step = STEP[vf_choose(9, "step")];
  if (step == 1 && n > 301) vf_skip();
  uint32_t rate = RATES[n < 3 ? vf_choose(3, "rate") : 1];
  int existing = n < 3 ? vf_choose(2, "existing") : n & 1;
  char path[600]; snprintf(path, sizeof path, "%s", vf_scratch("a.wav"));
  double* in[255]; static float* expected[255];
  for (int c = 0; c < channels; c++) {
    in[c] = vf_doubles(n);
    expected[c] = vf_mem(n * sizeof(float));
    for (int i = 0; i < n; i++) { in[c][i] = large ? i + 0.25 * c : shift == 7 ? 100 * c + i + 1 : VALUES[(shift + 3 * c + i) % 8]; expected[c][i] = in[c][i]; }
  }
  remove(path);
  if (existing) { FILE* f = fopen(path, "w"); for (int i = 0; i < 300; i++) fputc(0x55, f); fclose(f); }
  vf_track = vf_io_track = 1;
  sp_file_t file;
  status_t s = sp_file_open_write((uint8_t*)path, channels, rate, &file);
  VF(!s.id, "open_write", "sp_file_open_write status %d", s.id);
  for (int t = 0, cut; t < n; t = cut) {
    double* part[255];
    cut = large ? (t + step < n ? t + step : n) : next_cut(t, n, "write");
    for (int c = 0; c < channels; c++) { part[c] = vf_doubles(cut - t); memcpy(part[c], in[c] + t, (cut - t) * sizeof(double)); }
    s = sp_file_write(&file, part, cut - t);
    vf_op();
    VF(!s.id, "write", "sp_file_write status %d", s.id);
    for (int c = 0; c < channels; c++) VF(!memcmp(part[c], in[c] + t, (cut - t) * sizeof(double)), "input_changed", "sp_file_write changes its input");
  }
  sp_file_close_write(&file);
  vf_track = vf_io_track = 0;
  VF(!vf_open_files() && !vf_live(), "write_leak", "%d files open, %ld blocks not freed after writing", vf_open_files(), vf_live());
  uint8_t* b = vf_mem(1024 + 4 * n * channels);
  FILE* f = fopen(path, "r");
  VF(f, "no_file", "no file has been written");
  int size = fread(b, 1, 1024 + 4 * n * channels, f);
  fclose(f);
  int data = 4 * channels * n;
  VF(size == 44 + data, "file_size", "file of %d frames and %d channels has %d bytes", n, channels, size);
  VF(!memcmp(b, "RIFF", 4) && !memcmp(b + 8, "WAVEfmt ", 8) && !memcmp(b + 36, "data", 4), "identifiers", "wrong identifiers in the header");
  VF(le(b + 4, 4) == 36 + data, "riff_size", "riff size %u instead of %u", le(b + 4, 4), 36 + data);
  VF(le(b + 16, 4) == 16 && le(b + 20, 2) == 3, "format", "format chunk size %u, format %u", le(b + 16, 4), le(b + 20, 2));
  VF(le(b + 22, 2) == channels, "channels", "header channel count %u instead of %d", le(b + 22, 2), channels);
  VF(le(b + 24, 4) == rate, "rate", "header rate %u instead of %u", le(b + 24, 4), rate);
  VF(le(b + 28, 4) == rate * channels * 4 && le(b + 32, 2) == channels * 4 && le(b + 34, 2) == 32, "frame_format", "byte rate %u, frame size %u, bits %u", le(b + 28, 4), le(b + 32, 2), le(b + 34, 2));
  VF(le(b + 40, 4) == data, "data_size", "data size %u instead of %u", le(b + 40, 4), data);
  for (int i = 0; i < n; i++)
    for (int c = 0; c < channels; c++) VF(!memcmp(b + 44 + 4 * (i * channels + c), &expected[c][i], 4), "data", "frame %d channel %d is stored differently", i, c);
  fp_reset(); fp_add(b, size);
  /* reading */
  vf_track = vf_io_track = 1;
  memset(&file, 0, sizeof file);
  s = sp_file_open_read((uint8_t*)path, &file);
  VF(!s.id && file.channel_count == channels, "open_read", "sp_file_open_read status %d channel count %d", s.id, file.channel_count);
  for (int t = 0, rounds = 0; rounds < 3;) {
    int count = large ? (t < n ? step : 2) : t < n ? vf_range(1, n - t + 1, "read") : 2, got = count < n - t ? count : n - t;
    double* out[255];
    for (int c = 0; c < channels; c++) { out[c] = vf_doubles(count); for (int i = 0; i < count; i++) out[c][i] = -7; }
    s = sp_file_read(file, count, out);
    vf_op(); fp_int(s.id);
    if (got) VF(!s.id, "read", "sp_file_read of %d frames at %d of %d status %d", count, t, n, s.id);
    else VF(s.id == sp_s_id_file_eof && !strcmp((char*)s.group, sp_s_group_sp), "read_end", "reading at the end gives status %d %s", s.id, s.group);
    for (int c = 0; c < channels; c++)
      for (int i = 0; i < count; i++)
        VF(i < got ? out[c][i] == (double)expected[c][t + i] : out[c][i] == -7, "read_data", "frame %d channel %d reads as %g instead of %g", t + i, c, out[c][i], i < got ? expected[c][t + i] : -7.0);
    t += got;
    if (t >= n) rounds++;
  }
  sp_file_close_read(file);
  VF(!vf_open_files() && !vf_live(), "read_leak", "%d files open, %ld blocks not freed after reading", vf_open_files(), vf_live());
  fp_done();
}
