#ifndef vf_spline_h
#define vf_spline_h
#include "common.h"
/* reference values of spline path segments: written from the definitions of the curves.
   for bezier curves a range that the value has to be in */
enum { MOVE, LINE, BEZIER1, BEZIER2, ARC, PATH, CONSTANT, KINDS };
static const char* const kind_names[] = {"move", "line", "bezier1", "bezier2", "arc", "path", "constant"};
typedef struct { int kind; double x0, y0, x1, y1, c[4], curvature; } seg_t;
static void arc_control(double x0, double y0, double x1, double y1, double d, double* cx, double* cy) {
  /* on the line through the midpoint that is perpendicular to the connection of the end points.
     distance 1 and -1 are where that line leaves the rectangle of which the end points are opposite corners */
  double mx = (x0 + x1) / 2, my = (y0 + y1) / 2, dx = -(y1 - y0), dy = x1 - x0, hw = fabs(x1 - x0) / 2, hh = fabs(y1 - y0) / 2;
  double f = INFINITY;
  if (dx != 0) f = fmin(f, hw / fabs(dx));
  if (dy != 0 && hh / fabs(dy) < f) f = hh / fabs(dy);
  /* positive values bend downwards */
  *cx = mx - d * f * dx; *cy = my - d * f * dy;
}
static void bezier_at(const seg_t* s, double t, double* x, double* y) {
  double m = 1 - t;
  if (s->kind == BEZIER2) {
    *x = m * m * m * s->x0 + 3 * m * m * t * s->c[0] + 3 * m * t * t * s->c[2] + t * t * t * s->x1;
    *y = m * m * m * s->y0 + 3 * m * m * t * s->c[1] + 3 * m * t * t * s->c[3] + t * t * t * s->y1;
  } else {
    double cx = s->c[0], cy = s->c[1];
    *x = m * m * s->x0 + 2 * m * t * cx + t * t * s->x1;
    *y = m * m * s->y0 + 2 * m * t * cy + t * t * s->y1;
  }
}
/* range of a curve around an integer position */
static void bezier_range(const seg_t* s, double px, double* lo, double* hi) {
  double x, y, xb, yb, a = INFINITY, b = -INFINITY;
  int steps = 400;
  for (int i = 0; i <= steps; i++) {
    bezier_at(s, i / (double)steps, &x, &y);
    if (fabs(x - px) <= 0.52) { if (y < a) a = y; if (y > b) b = y; }
    /* where the curve crosses the limits */
    for (int k = -1; i && k < 2; k += 2) {
      double q = px + k * 0.52, v;
      if (x != xb && ((xb <= q && q <= x) || (x <= q && q <= xb))) { v = yb + (y - yb) * (q - xb) / (x - xb); a = fmin(a, v); b = fmax(b, v); }
    }
    if (i && ((xb <= px && px <= x) || (x <= px && px <= xb))) { a = fmin(a, fmin(y, yb)); b = fmax(b, fmax(y, yb)); }
    xb = x; yb = y;
  }
  double margin = 0.001 + 0.05 * (b - a);
  *lo = a - margin; *hi = b + margin;
}
#endif
