#define HUGE_SIZES
#include "common.h"
void vf_init(void) { sp_initialize(0, 1, 5); }
static const uint32_t FQ[] = {0, 1, 2, 7, 13, 960, 47999, 100003};
void vf_body(void) {
  int op = vf_choose(5, "function");
  fp_reset(); fp_int(op);
  if (op == 3) {
    uint32_t cycle = 1 + vf_choose(12, "cycle"), current = vf_choose(12, "current"), change = vf_choose(20, "change");
    if (cycle > 9) { cycle = (uint32_t[]){300, 48000, 70001}[cycle - 10]; if (current > 5) current = cycle - current; if (change > 5) change = change < 10 ? cycle - change : change > 17 ? 64 * (change - 17) : cycle * (change - 9) + change; }
    uint32_t a = sp_phase(current, change, cycle), e = (current + change) % cycle;
    VF(a == e, "phase", "phase %u + %u of %u is %u instead of %u", current, change, cycle, a, e);
    fp_int(a); fp_done(); return;
  }
  if (op == 4) {
    uint32_t cycle = 1 + vf_choose(12, "cycle"), current = vf_choose(12, "current"); double change = vf_choose(33, "change") / 4.0;
    if (cycle > 9) { cycle = (uint32_t[]){300, 48000, 70001}[cycle - 10]; if (current > 5) current = current == 11 ? 256 : cycle - current; if (change > 5) change = change < 6 ? cycle - change : cycle * floor(change - 5) + change; }
    uint32_t a = sp_phase_float(current, change, cycle), e = (current + (uint32_t)ceil(change)) % cycle;
    VF(a == e, "phase_float", "phase %u + %g of %u is %u instead of %u", current, change, cycle, a, e);
    fp_int(a); fp_done(); return;
  }
  /* oscillators: the table of sp_sine has sp_rate elements, of sp_sine_lfo sp_rate * sp_sine_lfo_factor */
  static const int sizes[] = {1, 2, 3, 5, 8, 301, 48000};
  int size = op == 0 ? sizes[vf_choose(7, "table")] : op == 1 ? 5 : 500, n = choose_size(1, vf_bound(4, 5), "samples");
  double* table = vf_doubles(size);
  for (int i = 0; i < size; i++) table[i] = op == 0 ? (i < 31 ? 1 << i : i) : sin(2 * M_PI * i / size);
  int mode = vf_choose(3, "modulation");
  uint32_t frq = mode ? 3 : FQ[vf_choose(8, "frequency")], *fmod = 0, scale = op == 2 ? 37 : 1;
  if (mode) { fmod = vf_u32s(n); for (int i = 0; i < n; i++) fmod[i] = scale * (n >= large_from ? FQ[i * 7 % (i % 2 ? 5 : 8)] : n <= 3 ? FQ[vf_choose(5, "fmod")] : FQ[1 + vf_choose(3, "fmod")]); }
  frq *= scale;
  double* amod = 0, amp = 1;
  if (mode == 2) { amp = (double[]){0, 1, -100.5}[vf_choose(3, "amp")]; }
  else { amod = vf_doubles(n); amp = (double[]){0.0004, -1, 100.5}[vf_choose(3, "amp")]; for (int i = 0; i < n; i++) amod[i] = 0.25 * ((mode && i >= n / 2 ? n - 1 - i : i) % 37 + 1); }
  int step = n >= large_from ? n == HUGE_SIZE ? vf_choose(2, "step") ? n : 1024 : vf_choose(2, "step") ? 257 : 1 : 0;
  static const int phs_choices[] = {0, 1, 2, 4, 7, 499, 250, 47999};
  if (size == 48000 && n > 3 && n < large_from) vf_skip();
  uint32_t phs = phs_choices[vf_choose(8, "phase")], p, state;
  if (phs >= (uint32_t)size) vf_skip();
  int no_state = !phs && vf_choose(2, "no phase state");
  double* out = vf_doubles(n), *e = vf_doubles(n);
  p = phs;
  for (int i = 0; i < n; i++) {
    out[i] = e[i] = 0.125 * i;
    e[i] += amp * (amod ? amod[i] : 1) * table[p];
    p = (p + (fmod ? fmod[i] : frq)) % size;
  }
  state = phs;
  for (int t = 0, cut; t < n; t = cut) {
    cut = no_state ? n : step ? (t + step < n ? t + step : n) : next_cut(t, n, "cut");
    uint32_t* s = no_state ? 0 : &state;
    if (op == 0) sp_wave(cut - t, table, size, amp, amod ? amod + t : 0, frq, fmod ? fmod + t : 0, s, out + t);
    else if (op == 1) sp_sine(cut - t, amp, amod ? amod + t : 0, frq, fmod ? fmod + t : 0, s, out + t);
    else sp_sine_lfo(cut - t, amp, amod ? amod + t : 0, frq, fmod ? fmod + t : 0, s, out + t);
    vf_op();
    VF(state < (uint32_t)size, "phase_range", "phase %u of %d", state, size);
  }
  same_doubles(out, e, n, "samples", "oscillator output");
  if (!no_state) VF(state == p, "phase_state", "phase is %u instead of %u", state, p);
  fp_doubles(out, n); fp_int(state); fp_done();
}
