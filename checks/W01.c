#include "common.h"
void vf_init(void) {
  sp_initialize(0, sp_channel_count_limit, 8);
  for (int k = 0; k < 7; k++) {
    int n = (int[]){1, 2, 3, 33, 64, 300, 5003}[k];
    sp_wave_event_config_t* a;
    status_t s = sp_wave_event_config_new_n(n, &a);
    VF(!s.id, "config_new_n", "status %d", s.id);
    for (int i = 0; i < n; i++) {
      VF(a[i].channel_count == sp_channel_count_limit && a[i].wvf == sp_sine_table && a[i].wvf_size == sp_rate, "defaults", "%d channels, table size %u in configuration %d of %d", a[i].channel_count, a[i].wvf_size, i, n);
      for (int k = 0; k < sp_channel_count_limit; k++) {
        sp_wave_event_channel_config_t* cc = a[i].channel_config + k;
        VF(cc->amp == 1 && cc->channel == k && !cc->amod && !cc->fmod && !cc->pmod && !cc->frq && !cc->phs && cc->use == !k, "defaults", "channel %d of configuration %d of %d", k, i, n);
      }
    }
    free(a);
  }
}
/* the configuration of each channel is chosen from variants, the reference is computed from the documentation */
static double table[5] = {1, 10, 100, 1000, 10000};
static double amod_a[8] = {1, 2, 3, 4, 5, 6, 7, 8}, amod_b[8] = {0.5, 0, -1, 0.25, 2, 3, 1, 4};
static uint32_t fmod_a[8] = {1, 12, 0, 3, 1, 0, 4, 2}, fmod_b[8] = {7, 2, 0, 1, 5, 1, 2, 3}, pmod_a[8] = {0, 11, 2, 7, 9, 1, 3, 2}, pmod_b[8] = {3, 0, 0, 1, 2, 7, 1, 0};
#define CH sp_channel_count_limit
/* with more than two channels, the settings of each channel are one of a few combinations */
#if CH > 2
#define PICK(count, combination) (combination)
#else
#define PICK(count, combination) vf_choose(count, #combination)
#endif
/* longer and later events with large frequencies, phases and tables */
static void long_body(void) {
  uint32_t n = (uint32_t[]){301, 5003, 70001}[vf_choose(3, "duration")], start = (uint32_t[]){0, 70, 70000, 4294890000u}[vf_choose(4, "start")], size = n + 20, table_size = vf_choose(2, "table") ? 4099 : 97, scale = vf_choose(2, "scale") ? 5000 : 1;
  uint32_t step = (uint32_t[]){7, 64, 1024, 6000, 68000}[vf_choose(5, "block")], t0 = start > 10 ? start - 10 : 0;
  int combination = vf_choose(8, "settings");
  sp_wave_event_config_t* c;
  status_t s;
  vf_track = 1;
  s = sp_wave_event_config_new((&c));
  VF(!s.id, "config_new", "status %d", s.id);
  vf_track = 0;
  double *t = vf_doubles(table_size), *amod = vf_doubles(n);
  uint32_t *fmod = vf_mem(n * 4), *pmod = vf_mem(n * 4);
  for (uint32_t i = 0; i < table_size; i++) t[i] = i + 1;
  for (uint32_t i = 0; i < n; i++) { amod[i] = 1 + i % 9 * 0.25; fmod[i] = i % 11 * scale; pmod[i] = i % 7 * scale; }
  c->channel_count = 2; c->wvf = t; c->wvf_size = table_size;
  double* x[2];
  for (int k = 0; k < 2; k++) {
    sp_wave_event_channel_config_t* cc = c->channel_config + k;
    cc->use = 1; cc->amod = amod; cc->amp = k + 1; cc->frq = (combination & 1) ? scale * (3 + k) : 0; cc->phs = k ? table_size - 1 : 0;
    cc->fmod = combination & 2 ? fmod : 0; cc->pmod = combination & 4 ? pmod : 0;
    uint64_t phase = cc->phs;
    x[k] = vf_doubles(size);
    for (uint32_t i = 0; i < size; i++) x[k][i] = 0.5;
    for (uint32_t i = 0; i < n; i++) {
      x[k][start - t0 + i] += cc->amp * amod[i] * t[(phase + (cc->pmod ? pmod[i] : 0)) % table_size];
      phase += cc->frq + (cc->fmod ? fmod[i] : 0);
    }
  }
  vf_note(" duration %u, start %u, table %u, scale %u, block %u, settings %d", n, start, table_size, scale, step, combination);
  vf_track = 1;
  sp_event_t e;
  sp_event_t* ep = &e;
  memset(&e, 0, sizeof e);
  sp_wave_event(ep, c);
  e.start = start; e.end = start + n;
  s = sp_event_memory_add((&e), c);
  VF(!s.id, "status", "status %d", s.id);
  sp_event_list_t* list = 0;
  s = sp_event_list_add(&list, e);
  VF(!s.id, "status", "status %d", s.id);
  sp_block_t out;
  memset(&out, 0, sizeof out);
  out.channel_count = 2; out.size = size;
  for (int k = 0; k < 2; k++) { out.samples[k] = vf_doubles(size); for (uint32_t i = 0; i < size; i++) out.samples[k][i] = 0.5; }
  for (uint32_t i = 0, cut; i < size; i = cut) {
    cut = i + step < size ? i + step : size;
    s = sp_seq(t0 + i, t0 + cut, sp_block_with_offset(out, i), &list);
    VF(!s.id, "status", "status %d", s.id);
    vf_op();
  }
  sp_event_list_free(&list);
  vf_track = 0;
  fp_reset();
  for (int k = 0; k < 2; k++) { same_doubles(out.samples[k], x[k], size, "samples", k ? "second channel" : "first channel"); fp_doubles(x[k], size); }
  VF(!vf_live(), "leak", "%ld blocks", vf_live());
  fp_done();
}
void vf_body(void) {
  if (CH == 2 && vf_choose(2, "long")) { long_body(); return; }
#if CH > 2
  uint32_t n = vf_range(2, vf_bound(3, 4), "duration"), start = vf_choose(2, "start"), size = n + start;
  int channels = CH, table_size = 3;
#else
  uint32_t n = vf_range(1, vf_bound(4, 6), "duration"), start = vf_choose(3, "start"), size = n + start + 1;
  int channels = 1 + vf_choose(2, "channels"), table_size = 3 + 2 * vf_choose(2, "table");
#endif
  sp_wave_event_config_t* c;
  status_t s;
  vf_track = 1;
  s = sp_wave_event_config_new((&c));
  vf_track = 0;
  VF(!s.id, "config_new", "status %d", s.id);
  VF(c->channel_count == CH && c->wvf == sp_sine_table && c->wvf_size == sp_rate, "defaults", "%d channels, table size %u", c->channel_count, c->wvf_size);
  for (int i = 0; i < CH; i++) {
    sp_wave_event_channel_config_t* cc = c->channel_config + i;
    VF(cc->amp == 1 && cc->channel == i && !cc->amod && !cc->fmod && !cc->pmod && !cc->frq && !cc->phs && cc->use == !i, "defaults", "channel %d", i);
  }
  if (table_size == 5) { c->wvf = table; c->wvf_size = 5; } else { c->wvf = table + 1; c->wvf_size = 3; }
  c->channel_count = channels;
  struct { double *amod, amp; uint32_t *fmod, *pmod, frq, phs; int channel; } r[CH];
  for (int i = 0; i < channels; i++) {
    sp_wave_event_channel_config_t* cc = c->channel_config + i;
    int v = CH > 2 ? vf_choose(i ? 16 : 4, "settings") : 0;
    if (i) cc->use = PICK(2, v < 12);
    cc->amod = i ? PICK(2, v & 1) ? amod_b : 0 : amod_a;
    cc->amp = PICK(2, i & 1) ? 0.5 : 1;
    cc->fmod = PICK(2, v >> 1 & 1) ? i ? fmod_b : fmod_a : 0;
    cc->pmod = PICK(2, v >> 2 & 1) ? i ? pmod_b : pmod_a : 0;
    cc->frq = PICK(3, v % 3) * (i ? 1 : 2);
    cc->phs = PICK(2, i == 2) * 2;
    r[i].amod = cc->amod; r[i].amp = cc->amp; r[i].fmod = cc->fmod; r[i].pmod = cc->pmod; r[i].frq = cc->frq; r[i].phs = cc->phs;
    if (i && !cc->use) r[i] = r[0];
    else if (i) {
      if (!cc->amod) r[i].amod = r[0].amod;
      if (!cc->fmod) r[i].fmod = r[0].fmod;
      if (!cc->pmod) r[i].pmod = r[0].pmod;
      if (!cc->frq) r[i].frq = r[0].frq;
    }
  }
  int swap = vf_choose(CH, "swap channels");
  for (int i = 0; i < channels; i++) c->channel_config[i].channel = r[i].channel = (i + swap) % (CH > 2 ? CH : 2);
  double* expect[CH];
  for (int k = 0; k < CH; k++) {
    expect[k] = vf_doubles(size);
    for (uint32_t i = 0; i < size; i++) expect[k][i] = 0.125 * (k + 1);
  }
  for (int k = 0; k < channels; k++) {
    uint64_t phase = r[k].phs;
    for (uint32_t i = 0; i < n; i++) {
      uint64_t p = (phase + (r[k].pmod ? r[k].pmod[i] : 0)) % table_size;
      expect[r[k].channel][start + i] += r[k].amp * r[k].amod[i] * c->wvf[p];
      phase += r[k].frq + (r[k].fmod ? r[k].fmod[i] : 0);
    }
  }
  sp_event_t e;
  sp_event_t* ep = &e;
  memset(&e, 0, sizeof e);
  vf_track = 1;
  sp_wave_event(ep, c);
  e.start = start; e.end = start + n;
  s = sp_event_memory_add((&e), c);
  VF(!s.id, "status", "status %d", s.id);
  sp_event_list_t* list = 0;
  s = sp_event_list_add(&list, e);
  VF(!s.id, "status", "status %d", s.id);
  fp_reset();
  int cuts = 0;
  for (uint32_t t = 0, cut; t < size; t = cut) {
    cut = cuts++ < 3 ? next_cut(t, size, "cut") : size;
    sp_block_t b;
    memset(&b, 0, sizeof b);
    b.channel_count = CH; b.size = cut - t;
    for (int k = 0; k < CH; k++) { b.samples[k] = vf_doubles(cut - t); for (uint32_t i = 0; i < cut - t; i++) b.samples[k][i] = 0.125 * (k + 1); }
    s = sp_seq(t, cut, b, &list);
    vf_op();
    VF(!s.id, "status", "status %d", s.id);
    for (int k = 0; k < CH; k++) for (uint32_t i = 0; i < cut - t; i++) {
      VF(vf_close(b.samples[k][i], expect[k][t + i]), "samples", "channel %d time %u: %.17g instead of %.17g", k, t + i, b.samples[k][i], expect[k][t + i]);
      fp_double(b.samples[k][i]);
    }
  }
  sp_event_list_free(&list);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks", vf_live());
  fp_done();
}
