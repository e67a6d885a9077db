#ifndef vf_paths_h
#define vf_paths_h
#include "spline.h"
/* checks a sampled path through points against the definitions of its segments */
static void check_path(const double* out, int length, int n, const double* px, const double* py, const double* c, const char* what) {
  for (int p = 0; p < length; p++) {
    int i = -1;
    /* the last segment that starts at or before p and ends after p */
    for (int j = 0; j < n - 1; j++) if ((int)px[j] <= p && p < (int)px[j + 1]) i = j;
    VF(i >= 0, "setup", "no segment at %d", p);
    seg_t s = {LINE, px[i], py[i], px[i + 1], py[i + 1]};
    double cv = c ? c[i] : 0, t = (p - s.x0) / (s.x1 - s.x0), e = s.y0 + (s.y1 - s.y0) * t, lo = fmin(s.y0, s.y1), hi = fmax(s.y0, s.y1);
    int whole = s.x0 == floor(s.x0) && s.x1 == floor(s.x1);
    if (fabs(cv) < 1e-5) {
      if (whole) VF(vf_close(out[p], e), "line", "%s: sample %d is %.17g instead of %.17g", what, p, out[p], e);
      else {
        double slope = fabs((s.y1 - s.y0) / (s.x1 - s.x0));
        VF(out[p] >= lo - 1e-9 && out[p] <= hi + 1e-9 && fabs(out[p] - e) <= slope + 1e-9, "line_between", "%s: sample %d is %.17g, exact value %.17g", what, p, out[p], e);
      }
    } else if (s.y0 != s.y1) {
      VF(out[p] >= lo - 1e-9 && out[p] <= hi + 1e-9, "outside", "%s: sample %d is %.17g, outside of %g to %g", what, p, out[p], lo, hi);
      /* many samples: the ends of segments and some between */
      int checked = s.x1 - s.x0 < 100 || p - s.x0 < 8 || s.x1 - p < 8 || p % 29 == 0;
      if (whole && checked) {
        s.kind = ARC;
        arc_control(s.x0, s.y0, s.x1, s.y1, cv, s.c, s.c + 1);
        bezier_range(&s, p, &lo, &hi);
        VF(out[p] >= lo && out[p] <= hi, "curve", "%s: sample %d is %g, not between %g and %g", what, p, out[p], lo, hi);
        if (p == (int)s.x0 && s.x1 - s.x0 > 1 && fabs(cv) < 0.6) VF(fabs(out[p] - s.y0) <= 0.6 * fabs(s.y1 - s.y0), "curve_start", "%s: sample %d is %g", what, p, out[p]);
      }
    }
  }
}
static void check_times(const uint32_t* times, const double* samples, int length, const char* what) {
  for (int i = 0; i < length; i++) VF(fabs(times[i] - samples[i]) <= 0.5 + 1e-9, "times", "%s: time %d is %u for %.17g", what, i, times[i], samples[i]);
}
#endif
