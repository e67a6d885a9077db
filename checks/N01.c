#include "common.h"
#define CH sp_channel_count_limit
void vf_init(void) {
  sp_initialize(0, CH, 8);
  sp_rate = 1000;
  sp_noise_event_config_t c = sp_noise_event_config_defaults();
  for (int i = 0; i < CH; i++) {
    sp_noise_event_channel_config_t* a = c.channel_config + i;
    VF(a->wdt == 500 && a->trnl == 80 && a->trnh == 80 && a->amp == 1 && a->channel == i && a->use == !i, "defaults", "defaults of channel %d: width %u transitions %u %u", i, a->wdt, a->trnl, a->trnh);
  }
  sp_rate = 8;
  for (int k = 0; k < 7; k++) {
    int n = (int[]){1, 2, 3, 33, 64, 300, 5003}[k];
    sp_noise_event_config_t* a;
    status_t s = sp_noise_event_config_new_n(n, &a);
    VF(!s.id, "config_new_n", "status %d", s.id);
    for (int i = 0; i < n; i++) {
      VF(a[i].channel_count == CH && a[i].resolution == 8 && !a[i].is_reject, "defaults", "%d channels, resolution %u in configuration %d of %d", a[i].channel_count, a[i].resolution, i, n);
      for (int k = 0; k < CH; k++) {
        sp_noise_event_channel_config_t* cc = a[i].channel_config + k;
        VF(cc->amp == 1 && cc->channel == k && cc->wdt == 4 && !cc->frq && !cc->amod && !cc->fmod && !cc->wmod && !cc->filter_state && cc->use == !k, "defaults", "channel %d of configuration %d of %d", k, i, n);
      }
    }
    free(a);
  }
}
#define N 66600
static double amod_a[N], amod_b[N];
static uint32_t fmod_a[N], wmod_a[N];
typedef struct { double amp, *amod; uint32_t frq, *fmod, wdt, *wmod, trnl, trnh; int own; long at; double y[N + 300]; } channel_t;
static channel_t r[CH];
/* the input is convolved with the kernel of the current settings, everything pending is kept in y */
static void ref_filter(channel_t* c, uint32_t event_i, const double* in, uint32_t n, int reject, double* out) {
  double* ir; uint32_t len;
  uint32_t f = c->fmod ? c->fmod[event_i] : c->frq, w = c->wmod ? c->wmod[event_i] : c->wdt;
  status_t s = sp_windowed_sinc_bp_br_ir(f / 8.0, (f + w) / 8.0, c->trnl / 8.0, c->trnh / 8.0, reject, &ir, &len);
  VF(!s.id, "kernel", "status %d", s.id);
  for (uint32_t i = 0; i < n; i++) for (uint32_t k = 0; k < len; k++) c->y[c->at + i + k] += in[i] * ir[k];
  for (uint32_t i = 0; i < n; i++) out[i] = c->y[c->at + i];
  c->at += n;
  free(ir);
}
static uint32_t ir_length(channel_t* c) { return sp_windowed_sinc_lp_hp_ir_length((c->trnl < c->trnh ? c->trnl : c->trnh) / 8.0); }
void vf_body(void) {
  for (int i = 0; i < N; i++) { amod_a[i] = 0.5 + 0.25 * (i % 3); amod_b[i] = 4.0 - (i % 2) * 3.5; fmod_a[i] = i % 3; wmod_a[i] = 1 + i % 2; }
  int big = CH > 2 ? 0 : vf_choose(2, "long");
  uint32_t n = CH > 2 ? vf_bound(2, 3) : CH == 2 && big ? (uint32_t[]){33, 41, 49, 301, 66003}[vf_choose(5, "duration")] : vf_range(1, vf_bound(5, 6), "duration"), start = big ? n > 300 ? 65500 : 0 : vf_choose(2, "start"), size = n + start + 1;
  int channels = CH > 2 ? CH : 1 + vf_choose(2, "channels"), reject = vf_choose(2, "reject");
  sp_noise_event_config_t* c;
  status_t s;
  vf_track = 1;
  s = sp_noise_event_config_new((&c));
  VF(!s.id, "config_new", "status %d", s.id);
  VF(c->channel_count == CH && c->resolution == 8 && !c->is_reject, "defaults", "%d channels, resolution %u", c->channel_count, c->resolution);
  for (int i = 0; i < CH; i++) {
    sp_noise_event_channel_config_t* cc = c->channel_config + i;
    VF(cc->amp == 1 && cc->channel == i && cc->wdt == 4 && !cc->frq && !cc->amod && !cc->fmod && !cc->wmod && !cc->filter_state && cc->use == !i, "defaults", "channel %d", i);
  }
  for (int i = 0; i < CH; i++) { memset(&r[i], 0, sizeof r[i] - sizeof r[i].y); memset(r[i].y, 0, (n + 300) * sizeof(double)); }
  c->is_reject = reject;
  c->channel_count = channels;
  int modulated = 0;
  for (int i = 0; i < channels; i++) {
    sp_noise_event_channel_config_t* cc = c->channel_config + i;
    cc->use = i ? vf_choose(2, "use") : 1;
    int variant = i && !cc->use ? 0 : vf_choose(i ? 6 : 5, "settings");
    cc->amod = i ? variant & 1 ? amod_b : 0 : amod_a;
    cc->amp = i ? 0.5 : 2;
    cc->frq = cc->wdt = cc->trnl = cc->trnh = 0;
    if (!i) {
      cc->trnl = 4; cc->trnh = variant == 1 ? 3 : 4;
      cc->frq = variant < 2 ? 1 : 0; cc->wdt = variant == 2 ? 4 : 2;
      if (variant == 3) cc->fmod = fmod_a;
      if (variant == 4) { cc->wmod = wmod_a; cc->frq = 1; }
    } else {
      if (variant == 2) cc->frq = 2;
      if (variant == 3) { cc->frq = 1; cc->wdt = 1; cc->trnl = 3; }
      if (variant == 4) cc->trnh = 2;
      if (variant == 5) cc->wmod = wmod_a;
    }
    r[i].amp = cc->amp; r[i].amod = cc->amod; r[i].frq = cc->frq; r[i].fmod = cc->fmod; r[i].wdt = cc->wdt; r[i].wmod = cc->wmod; r[i].trnl = cc->trnl; r[i].trnh = cc->trnh;
    if (!i) r[i].own = 1;
    else if (!cc->use) { r[i] = r[0]; r[i].own = 0; }
    else {
      if (!r[i].amod) r[i].amod = r[0].amod;
      r[i].own = cc->frq || cc->wdt || cc->fmod || cc->wmod || cc->trnl || cc->trnh;
      if (r[i].own) {
        if (!r[i].fmod) r[i].fmod = r[0].fmod;
        if (!r[i].wmod) r[i].wmod = r[0].wmod;
        if (!r[i].wdt) r[i].wdt = r[0].wdt;
        if (!r[i].trnl) r[i].trnl = r[0].trnl;
        if (!r[i].trnh) r[i].trnh = r[0].trnh;
      }
    }
    modulated |= r[i].fmod || r[i].wmod;
  }
  uint32_t resolution = !modulated ? 8 : n == 66003 ? channels == 1 ? 17 : 32 : 1 + vf_choose(3, "resolution");
  c->resolution = resolution;
  int swap = channels > 1 ? vf_choose(channels, "swap channels") : 0;
  for (int i = 0; i < channels; i++) c->channel_config[i].channel = (i + swap) % channels;
  /* reference of the random numbers and of the first unused filter call */
  sp_random_state = sph_random_state_new(7);
  sph_random_state_t copy = sp_random_state, noise = sp_random_state_new(sph_random_u32(&copy));
  static double in[N], out[N];
  vf_track = 0;
  for (int i = 0; i < channels; i++) if (r[i].own) {
    uint32_t len = ir_length(r + i);
    for (uint32_t k = 0; k < len; k++) in[k] = sph_random_f64_bounded(&noise, 2) - 1;
    ref_filter(r + i, 0, in, len, reject, out);
  }
  vf_track = 1;
  sp_event_t e;
  sp_event_t* ep = &e;
  memset(&e, 0, sizeof e);
  sp_noise_event(ep, c);
  e.start = start; e.end = start + n;
  s = sp_event_memory_add((&e), c);
  VF(!s.id, "status", "status %d", s.id);
  sp_event_list_t* list = 0;
  s = sp_event_list_add(&list, e);
  VF(!s.id, "status", "status %d", s.id);
  vf_note(" %u channels, start %u, duration %u, resolution %u", channels, start, n, resolution);
  fp_reset();
  int cuts = 0;
  uint32_t step = n == 301 ? (uint32_t[]){17, 128, 400}[vf_choose(3, "block")] : n > 301 ? 65900 : 0;
  for (uint32_t t = step ? start - 10 : 0, cut; t < size; t = cut) {
    if (step) cut = t + step < size ? t + step : size;
    else if (big) cut = !cuts++ ? (vf_choose(2, "cut") ? 17 : size) : size; else cut = next_cut(t, size, "cut");
    sp_block_t b;
    memset(&b, 0, sizeof b);
    b.channel_count = CH; b.size = cut - t;
    double* x[CH];
    for (int k = 0; k < CH; k++) {
      b.samples[k] = vf_doubles(cut - t); x[k] = vf_doubles(cut - t);
      for (uint32_t i = 0; i < cut - t; i++) b.samples[k][i] = x[k][i] = 0.125 * (k + 1);
    }
    s = sp_seq(t, cut, b, &list);
    vf_op();
    VF(!s.id, "status", "status %d", s.id);
    vf_track = 0;
    uint32_t from = t > start ? t - start : 0, to = cut > start ? (cut - start < n ? cut - start : n) : 0;
    for (uint32_t i = from, part; i < to; i += part) {
      part = modulated && resolution < to - i ? resolution : to - i;
      for (uint32_t k = 0; k < part; k++) in[k] = sph_random_f64_bounded(&noise, 2) - 1;
      for (int ch = 0; ch < channels; ch++) {
        if (r[ch].own) ref_filter(r + ch, i, in, part, reject, out);
        else memcpy(out, r[0].y + r[0].at - part, part * sizeof *out);
        for (uint32_t k = 0; k < part; k++) {
          double v = r[ch].amp * r[ch].amod[i + k] * out[k];
          x[(ch + swap) % channels][start + i + k - t] += v > 1 ? 1 : v < -1 ? -1 : v;
        }
      }
    }
    vf_track = 1;
    for (int k = 0; k < CH; k++) { same_doubles(b.samples[k], x[k], cut - t, "samples", k ? "second channel" : "first channel"); fp_doubles(b.samples[k], cut - t); }
  }
  sp_event_list_free(&list);
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks of memory are not freed", vf_live());
  fp_done();
}
