#define HUGE_SIZES
#include "common.h"
void vf_init(void) { sp_initialize(0, 2, 8); }
void vf_body(void) {
  int op = vf_choose(4, "operation"), channels = 1 + vf_choose(sp_channel_count_limit, "channels"), n = choose_size(0, vf_bound(6, 9), "size");
  sp_block_t a, b;
  status_t s;
  fp_reset(); fp_int(op);
  if (op == 3) {
    /* any number of channels */
    int ch = choose_size(1, 5, "more channels");
    if (channels > 1) vf_skip();
    if (ch > 255) ch = 255;
    double** x = vf_mem(ch * sizeof *x), **y = vf_mem(ch * sizeof *y), *z = vf_doubles(n * ch);
    for (int c = 0; c < ch; c++) { x[c] = vf_doubles(n); y[c] = vf_doubles(n); for (int i = 0; i < n; i++) x[c][i] = 1 + c + 10 * i; }
    sp_interleave(x, z, n, ch);
    for (int i = 0; i < n; i++) for (int c = 0; c < ch; c++) VF(z[i * ch + c] == 1 + c + 10 * i, "interleave", "sample %d channel %d", i, c);
    sp_deinterleave(y, z, n, ch);
    for (int c = 0; c < ch; c++) same_doubles(y[c], x[c], n, "deinterleave", "channel");
    fp_doubles(z, n * ch); fp_done();
    return;
  }
  int fail = op == 0 ? vf_choose(channels + 1, "failing allocation") : 0;
  vf_track = 1;
  vf_fail_at = fail;
  memset(&a, 0xee, sizeof a);
  s = sp_block_new(channels, n, &a);
  if (vf_fail_count) { VF(s.id && !vf_live(), "failure", "status %d, %ld blocks without memory", s.id, vf_live()); return; }
  vf_fail_at = 0;
  VF(!s.id && a.channel_count == channels && a.size == n, "new", "status %d, %d channels, size %u", s.id, a.channel_count, a.size);
  for (int c = 0; c < channels; c++) for (int i = 0; i < n; i++) VF(a.samples[c][i] == 0, "zero", "channel %d sample %d is %g", c, i, a.samples[c][i]);
  /* separate memory of full size for each channel */
  for (int c = 0; c < channels; c++) for (int i = 0; i < n; i++) a.samples[c][i] = 1 + c + 10 * i;
  for (int c = 0; c < channels; c++) for (int i = 0; i < n; i++) VF(a.samples[c][i] == 1 + c + 10 * i, "separate", "channel %d sample %d is %g", c, i, a.samples[c][i]);
  if (op == 1) {
    /* the target may be larger */
    int more = vf_choose(3, "more"), more_channels = vf_choose(sp_channel_count_limit - channels + 1, "more channels");
    s = sp_block_new(channels + more_channels, n + more, &b);
    VF(!s.id, "status", "status %d", s.id);
    for (int c = 0; c < b.channel_count; c++) for (int i = 0; i < n + more; i++) b.samples[c][i] = -1;
    sp_block_copy(a, b);
    for (int c = 0; c < b.channel_count; c++) for (int i = 0; i < n + more; i++)
      VF(b.samples[c][i] == (i < n && c < channels ? 1 + c + 10 * i : -1), "copy", "channel %d sample %d is %g", c, i, b.samples[c][i]);
    for (int c = 0; c < channels; c++) for (int i = 0; i < n; i++) VF(a.samples[c][i] == 1 + c + 10 * i, "copy_source", "channel %d sample %d", c, i);
    fp_int(more); sp_block_free(&b);
  } else if (op == 2) {
    int offset = choose_index(n + 1, "offset"), zero = vf_choose(2, "zero");
    b = sp_block_with_offset(a, offset);
    VF(b.channel_count == channels, "offset", "%d channels", b.channel_count);
    for (int c = 0; c < channels; c++) VF(b.samples[c] == a.samples[c] + offset, "offset", "channel %d", c);
    for (int c = 0; c < channels; c++) for (int i = 0; i < n - offset; i++) VF(b.samples[c][i] == 1 + c + 10 * (i + offset), "offset", "channel %d sample %d", c, i);
    for (int c = 0; c < channels; c++) for (int i = 0; i < n; i++) VF(a.samples[c][i] == 1 + c + 10 * i, "offset", "the original is changed");
    if (zero) {
      sp_block_zero(a);
      for (int c = 0; c < channels; c++) for (int i = 0; i < n; i++) VF(a.samples[c][i] == 0, "zero", "channel %d sample %d is %g", c, i, a.samples[c][i]);
    }
    fp_int(offset * 2 + zero);
  }
  sp_block_free(&a);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory", vf_live());
  fp_int(n * 2 + channels); fp_done();
}
