/* reference generator and states that produce chosen draws */
static uint64_t ref_rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t modinv(uint64_t a) { uint64_t x = a; for (int i = 0; i < 6; i++) x *= 2 - a * x; return x; }
/* a state whose next four 64 bit outputs are x[0] to x[3] */
static sp_random_state_t state_for(const uint64_t* x) {
  uint64_t y[4];
  for (int i = 0; i < 4; i++) y[i] = ref_rotl(x[i] * modinv(9), 57) * modinv(5);
  uint64_t d = y[0] ^ y[1], s21 = d ^ (y[0] << 17), e = y[2] ^ y[1] ^ s21 ^ y[0];
  uint64_t s31 = y[3] ^ y[2] ^ s21 ^ (y[1] << 17) ^ y[1];
  uint64_t s3 = ref_rotl(s31, 19) ^ y[0], s0 = e ^ s3, s2 = d ^ s0;
  sp_random_state_t s = {{s0, y[0], s2, s3}};
  return s;
}
static uint64_t draw_for(uint64_t v, uint64_t range) { return (uint64_t)((((__uint128_t)v << 64) + ((__uint128_t)1 << 63)) / range); }
typedef struct { uint64_t s[4]; } ref_t;
static ref_t ref_seed(uint64_t seed) {
  ref_t r;
  for (int i = 0; i < 4; i++) {
    uint64_t z = (seed += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    r.s[i] = z ^ (z >> 31);
  }
  return r;
}
static void ref_advance(ref_t* r) {
  uint64_t* s = r->s, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = ref_rotl(s[3], 45);
}
static uint64_t ref_u64(ref_t* r) { uint64_t a = ref_rotl(r->s[1] * 5, 7) * 9; ref_advance(r); return a; }
static double ref_f64p(ref_t* r) { uint64_t a = r->s[0] + r->s[3]; ref_advance(r); return (a >> 11) * 0x1.0p-53; }
static uint64_t ref_bounded(ref_t* r, uint64_t range) {
  if (!range) { ref_u64(r); return 0; }
  for (;;) {
    __uint128_t m = (__uint128_t)ref_u64(r) * range;
    if ((uint64_t)m >= (uint64_t)(-range) % range) return m >> 64;
  }
}
static ref_t ref_of(sp_random_state_t a) { ref_t r; memcpy(&r, &a, sizeof r); return r; }
