#include "common.h"
#define M_PIl 3.141592653589793238462643383279502884L
void vf_init(void) { sp_initialize(0, 1, 8); }
static double TR[] = {0.5, 0.4, 0.25, 0.21, 0.1, 0.09, 0.05, 0.03, 0.02, 0.013};
static double CU[] = {0.0007, 0.01, 0.05, 0.1, 0.125, 0.2, 0.25, 0.3, 0.37, 0.4, 0.45, 0.49};
static long double bl(long i, long n) { return 0.42L - 0.5L * cosl(2 * M_PIl * i / (n - 1)) + 0.08L * cosl(4 * M_PIl * i / (n - 1)); }
static int length_for(double transition) { int n = (int)ceil(4 / transition); return n & 1 ? n : n + 1; }
/* reference kernels */
static double* lp(double cutoff, double transition, int* len) {
  int n = length_for(transition);
  double* a = vf_doubles(n);
  long double sum = 0;
  for (int i = 0; i < n; i++) {
    double x = 2 * cutoff * (i - (n - 1) / 2);
    long double v = bl(i, n) * (x == 0 ? 1 : sinl(M_PIl * x) / (M_PIl * x));
    a[i] = v; sum += v;
  }
  for (int i = 0; i < n; i++) a[i] /= sum;
  *len = n;
  return a;
}
static double* hp(double cutoff, double transition, int* len) {
  double* a = lp(cutoff, transition, len);
  for (int i = 0; i < *len; i++) a[i] = (i == (*len - 1) / 2) - a[i];
  return a;
}
static void kernel(const double* a, int n, const double* e, int m, const char* what) {
  VF(n == m, "length", "%s: length %d instead of %d", what, n, m);
  for (int i = 0; i < n; i++) VF(fabs(a[i] - e[i]) <= 1e-9, "kernel", "%s: index %d of %d is %.17g instead of %.17g", what, i, n, a[i], e[i]);
}
static double* reference(double l, double h, double tl, double th, int reject, int* len) {
  double *a, *b, *c;
  int n, m;
  if (l <= 0 && h >= 0.5) { a = vf_doubles(1); *a = !reject; *len = 1; return a; }
  if (l <= 0) return reject ? hp(h, th, len) : lp(h, th, len);
  if (h >= 0.5) return reject ? lp(l, tl, len) : hp(l, tl, len);
  if (reject) {
    a = lp(l, tl, &n); b = hp(h, th, &m);
    *len = n > m ? n : m;
    c = vf_doubles(*len);
    for (int i = 0; i < *len; i++) {
      int x = i - (*len - n) / 2, y = i - (*len - m) / 2;
      c[i] = (x >= 0 && x < n ? a[x] : 0) + (y >= 0 && y < m ? b[y] : 0);
    }
    return c;
  }
  a = hp(l, tl, &n); b = lp(h, th, &m);
  *len = n + m - 1;
  c = vf_doubles(*len);
  memset(c, 0, *len * sizeof *c);
  for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) c[i + k] += a[i] * b[k];
  return c;
}
void vf_body(void) {
  int op = vf_choose(7, "function"), n, tn = vf_bound(8, 10);
  uint32_t len;
  double *a, *ir = 0, *e;
  status_t s;
  fp_reset(); fp_int(op);
  switch (op) {
  case 0: {
    /* length for every transition of a fine grid */
    double t = (1 + vf_choose(vf_bound(1000, 4000), "transition")) / vf_bound(2000.0, 8000.0);
    n = sp_windowed_sinc_lp_hp_ir_length(t);
    VF((n & 1) && n >= 4 / t && n <= 4 / t + 2, "length", "length %d for transition %g", n, t);
    fp_int(n); break; }
  case 1: {
    n = vf_range(1, 11, "length"); if (n > 9) n = n == 10 ? 301 : 5003;
    if (!(n & 1)) vf_skip();
    a = vf_doubles(n); e = vf_doubles(n);
    double* e2 = vf_doubles(n), *b = vf_doubles(n);
    for (int i = 0; i <= n / 2; i++) a[i] = a[n - 1 - i] = (n > 9 ? i * i % 7 : vf_choose(3, "value")) * 0.5 - 0.25;
    for (int i = 0; i < n; i++) { b[i] = a[i]; e[i] = (i == n / 2) - a[i]; e2[i] = i & 1 ? -a[i] : a[i]; }
    sp_spectral_inversion_ir(a, n);
    same_doubles(a, e, n, "inversion", "spectral inversion");
    sp_spectral_reversal_ir(b, n);
    same_doubles(b, e2, n, "reversal", "spectral reversal");
    fp_doubles(a, n); break; }
  case 2: {
    int high = vf_choose(2, "high pass"), via = vf_choose(2, "via");
    double c = CU[vf_choose(12, "cutoff")], t = TR[vf_choose(tn, "transition")];
    e = high ? hp(c, t, &n) : lp(c, t, &n);
    vf_track = 1;
    if (via) {
      double* args = vf_mem(2 * sizeof(double) + 1);
      args[0] = c; args[1] = t; ((uint8_t*)(args + 2))[0] = high;
      s = sp_windowed_sinc_lp_hp_ir_f(args, &ir, &len);
    } else s = sp_windowed_sinc_lp_hp_ir(c, t, high, &ir, &len);
    vf_track = 0;
    VF(!s.id && vf_live() == 1, "status", "status %d, %ld blocks", s.id, vf_live());
    vf_note(" cutoff %g transition %g", c, t);
    kernel(ir, len, e, n, "kernel");
    double sum = 0;
    for (int i = 0; i < n; i++) { sum += ir[i]; VF(vf_close(ir[i], ir[n - 1 - i]), "symmetry", "index %d", i); }
    VF(vf_close(sum, !high), "gain", "sum %.17g", sum);
    fp_doubles(ir, n); break; }
  case 3: {
    static const double cl[] = {-0.1, 0, 0.02, 0.1, 0.25, 0.4, 0.0006}, ch[] = {0.03, 0.15, 0.3, 0.45, 0.5, 0.6};
    int reject = vf_choose(2, "reject"), via = vf_choose(2, "via");
    double l = cl[vf_choose(7, "low")], h = ch[vf_choose(6, "high")], tl = TR[vf_choose(6, "low transition")], th = TR[vf_choose(6, "high transition")];
    e = reference(l, h, tl, th, reject, &n);
    vf_track = 1;
    if (via) {
      double* args = vf_mem(4 * sizeof(double) + 1);
      args[0] = l; args[1] = h; args[2] = tl; args[3] = th; ((uint8_t*)(args + 4))[0] = reject;
      s = sp_windowed_sinc_bp_br_ir_f(args, &ir, &len);
    } else s = sp_windowed_sinc_bp_br_ir(l, h, tl, th, reject, &ir, &len);
    vf_track = 0;
    vf_note(" cutoffs %g %g transitions %g %g", l, h, tl, th);
    VF(!s.id && vf_live() == 1, "status", "status %d, %ld blocks", s.id, vf_live());
    kernel(ir, len, e, n, reject ? "band reject kernel" : "band pass kernel");
    fp_doubles(ir, n); break; }
  case 6: {
    /* long kernels */
    static const double ts[] = {0.0035, 0.00079, 0.00006};
    int kind = vf_choose(4, "kind"), x = vf_choose(kind < 2 ? 3 : 2, "transition"), y = vf_choose(2, "other transition");
    double t = ts[x], u = y ? 0.3 : ts[x], c; int ci = vf_choose(12, "cutoff");
    c = CU[ci];
    if (kind > 1 && !y && x) vf_skip(); /* quadratic */
    e = kind == 0 ? lp(c, t, &n) : kind == 1 ? hp(c, t, &n) : reference(c, 0.495, y == (kind == 2) ? u : t, y == (kind == 2) ? t : u, kind == 3, &n);
    if (kind < 2) s = sp_windowed_sinc_lp_hp_ir(c, t, kind, &ir, &len);
    else s = sp_windowed_sinc_bp_br_ir(c, 0.495, y == (kind == 2) ? u : t, y == (kind == 2) ? t : u, kind == 3, &ir, &len);
    vf_note(" cutoff %g transition %g", c, t);
    VF(!s.id, "status", "status %d", s.id);
    kernel(ir, len, e, n, "long kernel");
    free(ir);
    if (x < 2 && ci % 4 == 2) {
      /* long input in one or two pieces */
      enum { SIZE = 6007 };
      int cut = (int[]){SIZE, 5100, 300}[vf_choose(3, "cut")];
      double *in = vf_doubles(SIZE), *out = vf_doubles(SIZE), *w = vf_doubles(SIZE);
      for (int i = 0; i < SIZE; i++) { in[i] = i * i % 17 - 8; w[i] = 0; }
      for (int i = 0; i < SIZE; i++) for (int j = 0; j < n && i + j < SIZE; j++) w[i + j] += in[i] * e[j];
      sp_convolution_filter_state_t* state = 0;
      for (int i = 0; i < SIZE; i += cut) {
        int m = i + cut < SIZE ? cut : SIZE - i;
        s = kind < 2 ? sp_windowed_sinc_lp_hp(in + i, m, c, t, kind, &state, out + i) : sp_windowed_sinc_bp_br(in + i, m, c, 0.495, y == (kind == 2) ? u : t, y == (kind == 2) ? t : u, kind == 3, &state, out + i);
        VF(!s.id, "status", "status %d", s.id);
      }
      vf_op();
      sp_convolution_filter_state_free(state);
      for (int i = 0; i < SIZE; i++) VF(fabs(out[i] - w[i]) < 1e-6, "filtered", "sample %d is %.9g instead of %.9g", i, out[i], w[i]);
      fp_doubles(out + 5000, 100);
    }
    fp_int(n); fp_double(e[n / 3]); break; }
  default: {
    /* filters in segments are convolutions with the kernels */
    int size = 6, band = op == 5, type = vf_choose(2, "type");
    double in[6] = {1, -0.5, 2, 0, 3, 0.25}, out[6], y[6] = {0};
    double c[3] = {CU[vf_choose(6, "cutoff")], 0.3, 0.2}, t = TR[vf_choose(3, "transition")];
    double* es[2]; int ns[2];
    int change = vf_choose(3, "change"), at = change ? 1 + vf_choose(5, "change at") : 6;
    es[0] = band ? reference(c[0], 0.4, t, 0.25, type, ns) : type ? hp(c[0], t, ns) : lp(c[0], t, ns);
    if (change == 1) es[1] = band ? reference(0.11, 0.3, t, 0.4, type, ns + 1) : type ? hp(0.3, t, ns + 1) : lp(0.3, t, ns + 1);
    if (change == 2) es[1] = band ? reference(c[0], 0.4, t, 0.25, !type, ns + 1) : !type ? hp(c[0], t, ns + 1) : lp(c[0], t, ns + 1);
    for (int i = 0; i < size; i++) { int w = i >= at; for (int k = 0; k < ns[w] && i + k < size; k++) y[i + k] += in[i] * es[w][k]; }
    sp_convolution_filter_state_t* state = 0;
    vf_track = 1;
    for (int i = 0, cut; i < size; i = cut) {
      cut = next_cut(i, i < at ? at : size, "cut");
      double* o = vf_doubles(cut - i), *x = vf_doubles(cut - i);
      memcpy(x, in + i, (cut - i) * sizeof *x);
      int w = i >= at, ty = w && change == 2 ? !type : type;
      if (band) s = w && change == 1 ? sp_windowed_sinc_bp_br(x, cut - i, 0.11, 0.3, t, 0.4, ty, &state, o) : sp_windowed_sinc_bp_br(x, cut - i, c[0], 0.4, t, 0.25, ty, &state, o);
      else s = sp_windowed_sinc_lp_hp(x, cut - i, w && change == 1 ? 0.3 : c[0], t, ty, &state, o);
      VF(!s.id, "status", "status %d", s.id);
      memcpy(out + i, o, (cut - i) * sizeof *o);
    }
    sp_convolution_filter_state_free(state);
    vf_track = 0;
    VF(!vf_live(), "leak", "%ld blocks", vf_live());
    same_doubles(out, y, size, "filter", "filter output");
    fp_doubles(out, size); break; }
  }
  fp_done();
}
