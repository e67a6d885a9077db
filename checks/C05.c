#include "common.h"
#include <stdbool.h>
bool Fft_transformRadix2(double real[], double imag[], size_t n);
bool Fft_transformBluestein(double real[], double imag[], size_t n);
void vf_init(void) { sp_initialize(0, 1, 8); }
bool Fft_convolveReal(const double x[], const double y[], double out[], size_t n);
bool Fft_convolveComplex(const double xreal[], const double ximag[], const double yreal[], const double yimag[], double outreal[], double outimag[], size_t n);
/* circular convolution: all pairs of basis vectors, and patterns */
static void convolution(void) {
  static const int sizes[] = {16, 31, 64, 100, 255, 256, 257, 300, 5003, 8192};
  int large = vf_choose(2, "large"), complex = vf_choose(2, "complex"), n = large ? sizes[vf_choose(LEN(sizes), "length")] : vf_range(1, vf_bound(7, 10), "length");
  int fail = large ? 0 : vf_choose(24, "failing allocation");
  double* v[4], *v0[4], *er = vf_doubles(n), *ei = vf_doubles(n), *out = vf_doubles(n), *oi = vf_doubles(n), m = 1;
  int b0 = large ? vf_choose(3, "shift") : vf_choose(n * (complex ? 2 : 1), "x"), b1 = large ? 0 : vf_choose(n * (complex ? 2 : 1), "y");
  for (int k = 0; k < 4; k++) {
    v[k] = vf_doubles(n);
    for (int i = 0; i < n; i++) {
      if (!complex && k & 1) v[k][i] = 0;
      else if (large) v[k][i] = k < 2 ? (i * i + k * 3 + b0) % 7 - 3 : (i * 5 + k) % 11 < 3;
      else v[k][i] = (i + (k & 1) * n == (k < 2 ? b0 : b1)) * (k < 2 ? 3 : -2);
      m += fabs(v[k][i]);
    }
    v0[k] = copy_doubles(v[k], n);
  }
  for (int i = 0; i < n; i++) {
    er[i] = ei[i] = 0;
    for (int k = 0; k < n; k++) {
      int j = (i - k + n) % n;
      er[i] += v[0][k] * v[2][j] - v[1][k] * v[3][j];
      ei[i] += v[0][k] * v[3][j] + v[1][k] * v[2][j];
    }
  }
  vf_track = 1; vf_fail_at = fail;
  int r = complex ? Fft_convolveComplex(v[0], v[1], v[2], v[3], out, oi, n) : Fft_convolveReal(v[0], v[2], out, n);
  vf_track = 0;
  vf_op();
  VF(!vf_live(), "leak", "%ld blocks", vf_live());
  VF(!r == (vf_fail_count > 0), "convolution_status", "result %d after %ld failing allocations", r, vf_fail_count);
  for (int k = 0; k < 4; k++) same_doubles(v[k], v0[k], n, "input", "input");
  if (fail && !vf_fail_count) vf_trivial();
  if (r) for (int i = 0; i < n; i++) VF(fabs(out[i] - er[i]) < 1e-11 * m * m && (!complex || fabs(oi[i] - ei[i]) < 1e-11 * m * m), "convolution", "length %d index %d is %g instead of %g", n, i, out[i], er[i]);
  fp_reset(); fp_int(r); fp_doubles(er, n); fp_doubles(ei, n); fp_done();
}
/* lengths around and above 2^16: basis vectors, whose transform has a closed form */
static void huge(void) {
  static const int sizes[] = {65535, 65536, 65537, 66003, 131072};
  int n = sizes[vf_choose(LEN(sizes), "length")], k = (int[]){0, 1, n / 2 + 1, n - 1}[vf_choose(4, "basis")], imaginary = vf_choose(2, "imaginary"), inverse = vf_choose(2, "inverse");
  double *re = calloc(n, 8), *im = calloc(n, 8), x = 3;
  (imaginary ? im : re)[k] = x;
  int r = inverse ? sp_ffti(n, re, im) : sp_fft(n, re, im);
  VF(!r, "status", "result %d for length %d", r, n);
  for (int i = 0; i < n; i++) {
    double angle = 2 * M_PI * ((long)i * k % n) / n * (inverse ? 1 : -1), c = x * cos(angle), s = x * sin(angle), er = imaginary ? -s : c, ei = imaginary ? c : s;
    VF(fabs(re[i] - er) < 1e-8 && fabs(im[i] - ei) < 1e-8, "transform", "length %d bin %d is %g%+gi instead of %g%+gi", n, i, re[i], im[i], er, ei);
  }
  free(re); free(im);
  fp_reset(); fp_int(n); fp_int(k); fp_int(imaginary + 2 * inverse); fp_done();
}
void vf_body(void) {
  switch (vf_choose(3, "kind of check")) { case 1: convolution(); return; case 2: huge(); return; }
  int kind = vf_choose(3, "kind"), max = vf_bound(24, 40), n;
  double *re, *im, *er, *ei;
  if (kind == 0) {
    /* all basis vectors, real and imaginary */
    n = vf_range(1, max, "length");
    re = vf_doubles(n); im = vf_doubles(n);
    int k = vf_choose(2 * n, "basis");
    for (int i = 0; i < n; i++) { re[i] = i == k; im[i] = i + n == k; }
  } else if (kind == 1) {
    n = vf_range(1, vf_bound(5, 6), "length");
    re = vf_doubles(n); im = vf_doubles(n);
    for (int i = 0; i < n; i++) { re[i] = vf_choose(n < 5 ? 4 : 3, "real") - 1; im[i] = n < 5 ? vf_choose(2, "imaginary") : 0; }
  } else {
    static const int sizes[] = {1, 2, 3, 4, 6, 7, 8, 12, 16, 31, 32, 33, 60, 64, 65, 100, 127, 128, 250, 256, 257, 511, 512, 1000, 1024, 2048};
    n = sizes[vf_choose(LEN(sizes), "length")];
    re = vf_doubles(n); im = vf_doubles(n);
    for (int i = 0; i < n; i++) { re[i] = (i * i + 3) % 11 - 5; im[i] = (7 * i) % 5 - 2; }
  }
  double *re0 = copy_doubles(re, n), *im0 = copy_doubles(im, n);
  er = vf_doubles(n); ei = vf_doubles(n);
  double m = 1, *cosines = vf_doubles(n), *sines = vf_doubles(n);
  for (int i = 0; i < n; i++) { cosines[i] = cos(-2 * M_PI * i / n); sines[i] = sin(-2 * M_PI * i / n); }
  for (int k = 0; k < n; k++) {
    long double a = 0, b = 0;
    for (int i = 0; i < n; i++) {
      if (!re[i] && !im[i]) continue;
      double c = cosines[((long)i * k) % n], s = sines[((long)i * k) % n];
      a += re[i] * c - im[i] * s; b += re[i] * s + im[i] * c;
    }
    er[k] = a; ei[k] = b;
  }
  for (int i = 0; i < n; i++) m += fabs(re[i]) + fabs(im[i]);
  int fail = kind == 2 ? vf_choose(12, "failing allocation") : 0, inverse = vf_choose(2, "inverse of the result");
  vf_track = 1;
  vf_fail_at = inverse ? 0 : fail;
  /* powers of two can be transformed by both methods, others only by one */
  int method = kind == 1 || inverse ? 0 : vf_choose(3, "method"), power = !(n & (n - 1));
  int r = method == 0 ? sp_fft(n, re, im) : method == 1 ? !Fft_transformBluestein(re, im, n) : !Fft_transformRadix2(re, im, n);
  if (method == 2 && !power) {
    VF(r && !vf_live(), "method", "length %d transformed as a power of two", n);
    same_doubles(re, re0, n, "method", "input"); same_doubles(im, im0, n, "method", "input");
    vf_trivial();
    return;
  }
  if (!inverse && vf_fail_count) {
    VF(r, "failure", "success without memory");
    VF(!vf_live(), "leak", "%ld blocks", vf_live());
    return;
  }
  VF(!r, "status", "sp_fft result %d", r);
  for (int k = 0; k < n; k++) VF(fabs(re[k] - er[k]) < 1e-11 * m * n && fabs(im[k] - ei[k]) < 1e-11 * m * n, "transform", "length %d bin %d is %g%+gi instead of %g%+gi", n, k, re[k], im[k], er[k], ei[k]);
  fp_reset();
  for (int i = 0; i < n; i++) { fp_double(er[i]); fp_double(ei[i]); }
  fp_done();
  if (inverse) {
    vf_alloc_count = 0;
    vf_fail_at = fail;
    r = sp_ffti(n, re, im);
    if (vf_fail_count) { VF(r, "failure", "success without memory"); }
    else {
      VF(!r, "status", "sp_ffti result %d", r);
      for (int i = 0; i < n; i++) VF(fabs(re[i] / n - re0[i]) < 1e-11 * m * n && fabs(im[i] / n - im0[i]) < 1e-11 * m * n, "inverse", "length %d index %d is %g%+gi instead of %g%+gi", n, i, re[i] / n, im[i] / n, re0[i], im0[i]);
    }
  } else if (fail) vf_trivial();
  vf_track = 0;
  VF(!vf_live(), "leak", "%ld blocks", vf_live());
}
