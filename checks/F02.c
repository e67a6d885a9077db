#include "common.h"
/* opening of truncated and modified wav files against an independent reader of the format */
void vf_init(void) { sp_initialize(0, 1, 8); }
static uint32_t le(const uint8_t* b, int n) { uint32_t a = 0; for (int i = n - 1; i >= 0; i--) a = a << 8 | b[i]; return a; }
static void put(uint8_t* b, uint32_t a, int n) { for (int i = 0; i < n; i++) b[i] = a >> (8 * i); }
static int build(uint8_t* b, int channels, int n, int chunks, const int* chunk_size) {
  memset(b, 0, 1024);
  memcpy(b, "RIFF", 4); memcpy(b + 8, "WAVEfmt ", 8);
  put(b + 16, 16, 4); put(b + 20, 3, 2); put(b + 22, channels, 2); put(b + 24, 44100, 4); put(b + 28, 44100 * channels * 4, 4); put(b + 32, 4 * channels, 2); put(b + 34, 32, 2);
  int p = 36;
  for (int i = 0; i < chunks; i++) {
    memcpy(b + p, i & 1 ? "PEAK" : "fact", 4); put(b + p + 4, chunk_size[i], 4);
    for (int j = 0; j < chunk_size[i]; j++) b[p + 8 + j] = 0x40 + 16 * (i & 1) + j % 16;
    p += 8 + chunk_size[i] + (chunk_size[i] & 1); /* chunks of odd size are padded */
  }
  memcpy(b + p, "data", 4); put(b + p + 4, 4 * channels * n, 4); p += 8;
  for (int i = 0; i < n * channels; i++) { float v = (i + 1) * 0.25f; memcpy(b + p, &v, 4); p += 4; }
  put(b + 4, p - 8, 4);
  return p;
}
/* position of the samples, 0 if the file is not a supported wav file */
static int parse(const uint8_t* b, int size) {
  if (size < 44 || memcmp(b, "RIFF", 4) || memcmp(b + 8, "WAVEfmt ", 8) || le(b + 20, 2) != 3 || le(b + 34, 2) != 32) return 0;
  if (!le(b + 22, 2) || le(b + 22, 2) > 255) return 0;
  long p = 36;
  for (;;) {
    if (p + 8 > size) return 0;
    if (!memcmp(b + p, "data", 4)) return p + 8;
    p += 8 + (long)le(b + p + 4, 4) + (le(b + p + 4, 4) & 1);
  }
}
static const int SIZES[] = {0, 5, 6, 12};
void vf_body(void) {
  static uint8_t b[200000]; int chunk_size[40];
  int channels = vf_range(1, 3, "channels"), n = vf_choose(4, "frames"), chunks = vf_choose(5, "chunks"), large = chunks > 2;
  if (large) {
    /* large chunks or many */
    int chunk = chunks == 3 ? (int[]){126, 4097, 32768, 65536, 70001}[vf_choose(5, "chunk size")] : SIZES[vf_choose(4, "chunk size")];
    chunks = chunks == 3 ? 1 : (int[]){3, 9, 40}[vf_choose(3, "count")];
    for (int i = 0; i < chunks; i++) chunk_size[i] = chunk;
  } else for (int i = 0; i < chunks; i++) chunk_size[i] = SIZES[vf_choose(i ? 2 : 4, "chunk size")];
  int size = build(b, channels, n, chunks, chunk_size), unspecified = 0, data_start = parse(b, size);
  int kind = large ? vf_choose(2, "damage") : vf_choose(4, "damage");
  if (kind == 1) size = large ? size - vf_choose(3, "truncated") * (size / 3) - 1 : vf_choose(size, "truncated");
  if (kind == 2) {
    static const int values[] = {0, 1, 3, 0x20, 0x7f, 0x80, 0xff};
    int i = vf_choose(data_start, "byte"), v = vf_choose(9, "value"), old = b[i];
    b[i] = v == 7 ? old ^ 1 : v == 8 ? old ^ 0x80 : values[v];
    if (b[i] == old) vf_skip();
    /* sizes and rates that no reader of this format needs */
    unspecified = (i >= 4 && i < 8) || (i >= 16 && i < 20) || (i >= 24 && i < 34) || i >= data_start - 4;
  }
  if (kind == 3) { /* two bytes: channel counts and formats */
    static const int counts[] = {0, 255, 256, 257, 0x0200, 0xffff, 1, 2, 5};
    int field = vf_choose(3, "field"), v = counts[vf_choose(9, "value")];
    if (field == 0) put(b + 22, v, 2);
    else if (field == 1) put(b + 20, v, 2);
    else put(b + 34, v, 2);
  }
  char path[600]; snprintf(path, sizeof path, "%s", vf_scratch("a.wav"));
  FILE* f = fopen(path, "w");
  VF(f && (!size || fwrite(b, size, 1, f)), "setup", "scratch file");
  fclose(f);
  int valid = parse(b, size);
  sp_file_t file; memset(&file, 0, sizeof file);
  vf_note(" file of %d bytes, %s", size, valid ? "valid" : "invalid");
  vf_track = vf_io_track = 1;
  status_t s = sp_file_open_read((uint8_t*)path, &file);
  vf_op();
  fp_reset(); fp_int(s.id); fp_int(valid); fp_int(channels);
  if (!unspecified) VF(valid ? !s.id : s.id != 0, valid ? "rejected" : "accepted", "%s file: status %d", valid ? "well formed" : "malformed", s.id);
  if (s.id) {
    VF(s.group && s.group[0], "status_group", "status without group");
    VF(!vf_open_files() && !vf_live(), "leak", "%d files open, %ld blocks not freed after a failed open", vf_open_files(), vf_live());
    fp_done(); return;
  }
  if (!unspecified) {
    int count = le(b + 22, 2), frames = (size - valid) / (4 * count);
    VF(file.channel_count == count, "channel_count", "channel count %d instead of %d", file.channel_count, count);
    double** out = vf_mem(count * sizeof *out);
    for (int c = 0; c < count; c++) { out[c] = vf_doubles(frames + 1); for (int i = 0; i <= frames; i++) out[c][i] = -7; }
    /* of an incomplete last frame nothing, or what is in the file */
    int over = (size - valid) % (4 * count) ? vf_choose(2, "over") : 0;
    if (frames) {
      s = sp_file_read(file, frames + over, out);
      vf_op();
      VF(!s.id, "read", "reading %d frames: status %d", frames, s.id);
      for (int i = 0; i < frames; i++)
        for (int c = 0; c < count; c++) { float v; memcpy(&v, b + valid + 4 * (i * count + c), 4); VF(out[c][i] == v, "data", "frame %d channel %d is %g instead of %g", i, c, out[c][i], v); fp_double(v); }
    }
    if (over && !frames) s = sp_file_read(file, 1, out);
    if (over) for (int c = 0; c < count; c++) {
      int p = valid + 4 * (frames * count + c); float v = -7;
      if (p + 4 <= size) memcpy(&v, b + p, 4);
      VF(out[c][frames] == -7 || out[c][frames] == v, "incomplete_frame", "channel %d of an incomplete frame is %g", c, out[c][frames]);
    }
    if (size - valid == frames * 4 * count) {
      s = sp_file_read(file, 1, out);
      VF(s.id == sp_s_id_file_eof, "end", "reading at the end: status %d", s.id);
    }
  }
  sp_file_close_read(file);
  VF(!vf_open_files() && !vf_live(), "close_leak", "%d files open, %ld blocks not freed after closing", vf_open_files(), vf_live());
  fp_done();
}
