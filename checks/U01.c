#include "common.h"
#define _sp_rate 48000 /* defined by users of sp_duration */
void vf_init(void) { sp_initialize(0, 2, 8); }
static double clampd(double x, double a, double b) { return x < a ? a : x > b ? b : x; }
/* small numbers, and larger ones around the limits of eight, sixteen and 32 bit */
static uint32_t number(uint32_t n, const char* label) {
  static const uint32_t large[] = {255, 256, 257, 1000, 32768, 48000, 65535, 65536, 66001, 16777217, 2147483647, 2147483649};
  uint32_t i = vf_choose(n + LEN(large), label);
  return i < n ? i : large[i - n];
}
void vf_body(void) {
  int op = vf_choose(15, "function");
  double r = 0;
  fp_reset(); fp_int(op);
  switch (op) {
  case 0: {
    uint32_t a = number(6, "a"), b = number(6, "b"), t = number(40, "t");
    if (!(a + b) || (uint64_t)a + b > UINT32_MAX) vf_skip();
    uint32_t m = t % (a + b);
    EQ(r = sp_triangle(t, a, b), m < a ? m / (double)a : (b - (m - (double)a)) / b, "triangle", "triangle"); break; }
  case 1: { uint32_t size = number(10, "size"), t = number(50, "t"); if (!size || size > UINT32_MAX / 2) vf_skip(); EQ(r = sp_square(t, size), (2 * (uint64_t)(t % size)) < size ? -1 : 1, "square", "square"); break; }
  case 2: {
    int ch = vf_choose(6, "channel"); double v = vf_choose(141, "pan") * 0.05 - 0.5;
    int even = ch & ~1; /* left channel of the pair */
    double p = v - even, e = ch & 1 ? clampd(p, 0, 0.5) / 0.5 : 1 - (clampd(p, 0.5, 1) - 0.5) / 0.5;
    EQ(r = sp_pan_to_amp(v, ch), e, "pan", "pan to amp"); break; }
  case 3: { if (vf_choose(2, "large exponent")) { uint32_t b = vf_choose(2, "base"), e = (uint32_t[]){255, 256, 257, 65535, 65536, 65537, 2147483648u, 4294967295u}[vf_choose(8, "exponent")]; VF(sp_time_expt(b, e) == b, "expt", "%u ** %u is %u", b, e, sp_time_expt(b, e)); r = b; break; }
    uint32_t b = vf_choose(15, "base"), e = vf_choose(66, "exponent"), x = 1; if (b > 11) b = (uint32_t[]){64, 65, 255}[b - 12]; for (uint32_t i = 0; i < e; i++) x *= b; VF(sp_time_expt(b, e) == x, "expt", "%u ** %u is %u", b, e, sp_time_expt(b, e)); r = x; break; }
  case 4: { uint32_t n = vf_choose(14, "n"), x = 1; for (uint32_t i = 2; i <= n; i++) x *= i; VF(sp_time_factorial(n) == x, "factorial", "%u! is %u", n, sp_time_factorial(n)); r = x; break; }
  case 5: {
    size_t n = vf_range(1, 4, "count"), *d = vf_mem(n * sizeof *d), i = vf_choose(35, "index"), e;
    if (i > 30) i = (size_t[]){5003, 70004, 3000000000u, 10000000000007u}[i - 31];
    for (size_t k = 0; k < n; k++) d[k] = 1 + vf_choose(5, "divisor");
    for (e = 0; e < n; e++) if (i % d[e] == 0) break;
    if (e == n) e = n - 1;
    size_t m = (size_t[]){255, 1088, 5009}[i % 3], *l = vf_mem(m * sizeof *l);
    for (size_t k = 0; k < m; k++) l[k] = i % m == k ? 1 : 10000000000009u + k;
    if (i && i < m) VF(sp_modulo_match(i, l, m) == i, "modulo_match", "match %zu of %zu: %zu", i, m, sp_modulo_match(i, l, m));
    VF(sp_modulo_match(i, d, n) == e, "modulo_match", "index %zu: %zu instead of %zu", i, sp_modulo_match(i, d, n), e); r = e; break; }
  case 6: {
    int n = vf_range(1, 8, "count"); uint8_t* a = vf_mem(n); uint64_t e = 0;
    static const uint8_t alphabet[] = {0, 1, 128, 255};
    int an = n <= 5 ? 4 : 3;
    for (int i = 0; i < n; i++) { a[i] = alphabet[vf_choose(an, "byte")]; e |= (uint64_t)a[i] << (8 * i); }
    VF(sp_u64_from_array(a, n) == e, "u64_from_array", "%d bytes: %llx instead of %llx", n, (unsigned long long)sp_u64_from_array(a, n), (unsigned long long)e); r = e; break; }
  case 7: {
    uint32_t base = 1 + vf_choose(9, "base"), a = number(60, "value"); if (a > 100) base = 1 + number(9, "base"); if ((uint64_t)a + base > UINT32_MAX) vf_skip(); double amount = vf_choose(5, "amount") / 4.0;
    uint32_t out = sp_time_harmonize(a, base, amount);
    int ok = 0;
    /* the nearest multiple, or both if the value is in the middle */
    for (uint32_t k = a / base; k <= a / base + 1; k++) {
      double m = k * (double)base, other = a % base * 2.0 > base ? a / base * base + (double)base : a / base * base;
      if (fabs(a - m) > fabs(a - other) + 1e-9) continue;
      double e = a + amount * (m - a);
      if (out == floor(e + 1e-9) || out == floor(e - 1e-9)) ok = 1;
    }
    VF(ok, "harmonize", "%u to multiples of %u by %g: %u", a, base, amount, out); r = out; break; }
  case 8: { double x = vf_choose(81, "x") / 8.0 - 5; EQ(r = sp_sinc(x), x == 0 ? 1 : sin(M_PI * x) / (M_PI * x), "sinc", "sinc"); break; }
  case 9: { uint32_t w = vf_choose(2, "large") ? (uint32_t[]){257, 1001, 65537}[vf_choose(3, "width")] : vf_range(2, 30, "width"); double x = w > 30 ? choose_index(w, "x") : vf_choose(w, "x"); EQ(r = sp_window_blackman(x, w), 0.42 - 0.5 * cos(2 * M_PI * x / (w - 1)) + 0.08 * cos(4 * M_PI * x / (w - 1)), "blackman", "window"); break; }
  case 10: {
    /* limits of random state independent conversions */
    uint32_t n = vf_choose(2, "large") ? (uint32_t[]){100, 255, 256, 257, 1000, 48000, 65537}[vf_choose(7, "size")] : vf_range(1, 24, "size"); double* o = vf_doubles(n);
    sp_sine_period(n, o);
    for (uint32_t i = 0; i < n; i++) VF(fabs(o[i] - sin(2 * M_PI * i / n)) < 1e-12, "sine_period", "size %u index %u is %g", n, i, o[i]);
    r = n; break; }
  case 11: {
    /* conversions between units */
    static const uint32_t rates[] = {1, 8, 9600, 9999, 10000, 48000, 96000};
    static const double values[] = {1, 2, 3, 10, 440, 0.5, 1000.25, 47999, 70000};
    uint32_t old = sp_rate, n = vf_choose(5, "n"), d = vf_range(1, 8, "d");
    double x = values[vf_choose(LEN(values), "value")], e[8], v[8];
    uint32_t rate = sp_rate = rates[vf_choose(LEN(rates), "rate")];
    v[0] = sp_hz_to_samples(x); e[0] = rate / x;
    v[1] = sp_samples_to_hz(x); e[1] = floor(rate / x);
    v[2] = sp_hz_to_factor(x); e[2] = x / rate;
    v[3] = sp_hz_to_rad(x); e[3] = 2 * M_PI * x;
    v[4] = sp_rad_to_hz(v[3]); e[4] = x;
    v[5] = sp_factor_to_hz(x / 16384); e[5] = floor(x * rate / 16384);
    v[6] = sp_sample_to_unit((x / 70000)); e[6] = (1 + x / 70000) / 2;
    v[7] = sp_rate_duration(n, d); e[7] = rate / d * n;
    uint32_t same = sprd(n, d) == v[7] && sp_duration(n, d) == _sp_rate / d * n && spd(n, d) == sp_duration(n, d);
    uint32_t resolution = sp_default_resolution;
    sp_rate = old;
    VF(resolution == (rate < 10000 ? rate : rate / 1000), "resolution", "default resolution %u at rate %u", resolution, rate);
    for (int i = 0; i < 8; i++) VF(vf_close(v[i], e[i]), "conversion", "conversion %d of %g at rate %u: %.17g instead of %.17g", i, x, rate, v[i], e[i]);
    VF(same, "duration", "durations of %u/%u at rate %u", n, d, rate);
    r = v[2] + v[7]; break; }
  case 12: {
    /* macros for numbers, with samples */
    static const double v[] = {-65537.5, -3, -0.5, 0, 0.25, 0.5, 1, 2.25, 7, 70000.75};
    double a = v[vf_choose(LEN(v), "a")], b = v[vf_choose(LEN(v), "b")], c = v[vf_choose(LEN(v), "c")], d = a;
    EQ(sp_inline_max(a, b), a > b ? a : b, "max", "greatest of two");
    EQ(sp_inline_min(a, b), a > b ? b : a, "min", "least of two");
    if (b <= c) EQ(r = sp_inline_limit(a, b, c), clampd(a, b, c), "limit", "limit");
    EQ(sp_inline_abs(a), fabs(a), "abs", "absolute value");
    EQ(sp_inline_absolute_difference(a, b), fabs(a - b), "difference", "absolute difference");
    EQ(sp_subtract(a, b), a - b, "subtract", "subtract");
    EQ(sp_inline_optional(a, b), a != 0 ? a : b, "optional", "optional");
    sp_inline_default(d, b);
    EQ(d, a != 0 ? a : b, "default", "default");
    EQ(sp_inline_no_zero_divide(a, b), b == 0 ? 0 : a / b, "no_zero_divide", "division by zero");
    if (a >= 0) {
      EQ(sp_cheap_round_positive(a), floor(a + 0.5), "round", "round");
      EQ(sp_cheap_floor_positive(a), floor(a), "floor", "floor");
      EQ(sp_cheap_ceiling_positive(a), ceil(a), "ceiling", "ceiling");
      EQ(sp_inline_no_underflow_subtract(a, b), a > b ? a - b : 0, "no_underflow", "subtract without underflow");
    }
    EQ(sp_sample_to_unit(a), 0.5 + a / 2, "unit", "sample to unit");
    r += a; break; }
  case 14: {
    /* moved away from the nearest multiple, the further the closer it is to that multiple, by a random factor between 1 and half the base */
    uint32_t base = 2 + vf_choose(12, "base"), a = vf_choose(41, "time"); if (base > 11) base = base == 12 ? 16 : 25;
    double amount = vf_choose(5, "amount") / 4.0;
    uint32_t m = (a + base / 2) / base * base, d = a > m ? a - m : m - a, half = base / 2, seen = 0, up = 0, down = 0, steps = 200;
    double ratio = (base - (double)d) / base;
    for (uint32_t seed = 0; seed < steps; seed++) {
      sp_random_state = sp_random_state_new(seed);
      uint32_t x = sp_time_deharmonize(a, base, amount); int ok = 0;
      for (uint32_t i = 0; i < half; i++) {
        double moved = amount * ratio * (1 + i); int can = a >= moved, u = a >= m || !can, l = a <= m && can;
        int isu = u && fabs(x - (a + moved)) < 1 && x >= a, isl = l && fabs(x - (a - moved)) < 1 && x <= a;
        if (isu || isl) { ok = 1; if (i == 0) seen |= 1; if (i == half - 1) seen |= 2; }
        up |= isu && x > a; down |= isl && x < a;
      }
      VF(ok, "deharmonize", "%u with base %u and amount %g becomes %u, the nearest multiple is %u", a, base, amount, x, m);
      r += x;
    }
    VF(seen == 3, "deharmonize", "%u with base %u and amount %g is never moved by the %s distance", a, base, amount, seen & 1 ? "largest" : "smallest");
    if (a == m && amount == 1 && a >= half) VF(up && down, "deharmonize", "the multiple %u of %u is only moved %s", a, base, up ? "up" : "down");
    break; }
  case 13: {
    /* macros for numbers, with times */
    uint32_t a = number(6, "a"), b = number(6, "b"), c = number(6, "c"), d = a, *x = vf_u32s(3), *none = 0;
    int64_t g = a > b ? a : b, l = a > b ? b : a;
    VF(sp_inline_max(a, b) == g && sp_inline_min(a, b) == l, "max", "greatest and least of %u and %u", a, b);
    if (b <= c) VF(sp_inline_limit(a, b, c) == (a < b ? b : a > c ? c : a), "limit", "%u limited to %u to %u", a, b, c);
    VF(sp_inline_absolute_difference(a, b) == g - l, "difference", "difference of %u and %u", a, b);
    VF(sp_inline_no_underflow_subtract(a, b) == (a > b ? a - b : 0), "no_underflow", "%u - %u without underflow", a, b);
    VF(sp_inline_no_zero_divide(a, b) == (b ? a / b : 0), "no_zero_divide", "%u divided by %u", a, b);
    VF(sp_inline_optional(a, b) == (a ? a : b), "optional", "optional %u %u", a, b);
    sp_inline_default(d, b);
    VF(d == (a ? a : b), "default", "default %u %u", a, b);
    VF(!sp_time_odd_p(a) == !(a % 2), "odd", "whether %u is odd", a);
    VF(sp_time_to_sample(a) == (double)a, "to_sample", "%u as sample", a);
    x[0] = a; x[1] = b; x[2] = c;
    for (int i = 0; i < 3; i++) VF(sp_optional_array_get(x, 5, i) == x[i] && sp_optional_array_get(none, b, i) == b, "optional_array", "optional array with index %d", i);
    r = g; break; }
  }
  fp_double(r);
  fp_done();
}
