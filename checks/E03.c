#include "spline.h"
/* spline paths of up to three segments of all kinds, read in any ranges */
void vf_init(void) { }
#define BOUND 14
#define UNSET 777
static int path_size;
static seg_t segs[1501], inner[2];
static int seg_n;
static double value[140000];
static int is_curve[140000];
static seg_t* curve_of[140000];
static void draw(seg_t* s, double x) {
  int p = x;
  if (s->kind == MOVE) value[p] = 0;
  else if (s->kind == LINE) value[p] = s->y0 + (s->y1 - s->y0) * (x - s->x0) / (s->x1 - s->x0);
  else if (s->kind == CONSTANT) value[p] = s->y0;
  else if (s->kind == PATH) {
    for (int i = 0; i < 2; i++) if (x - s->x0 >= inner[i].x0 && x - s->x0 < inner[i].x1) {
      value[p] = inner[i].y0 + (inner[i].y1 - inner[i].y0) * (x - s->x0 - inner[i].x0) / (inner[i].x1 - inner[i].x0);
    }
  } else { is_curve[p] = 1; curve_of[p] = s; }
}
/* values after the end may stay as they are */
static void unset_after_end(double* out, int start, int end) {
  for (int i = path_size > start ? path_size - start : 0; i < end - start; i++) if (out[i] == UNSET) out[i] = 0;
}
static double* read_range(spline_path_t* path, int start, int end) {
  double* out = vf_doubles(end - start);
  /* every value on the path is written, also those in gaps */
  for (int i = 0; i < end - start; i++) out[i] = UNSET;
  spline_path_get(path, start, end, out);
  vf_op();
  unset_after_end(out, start, end);
  return out;
}
static void check_values(const double* out, int start, int end, const double* whole, const char* what) {
  for (int i = start; i < end; i++) {
    double a = out[i - start];
    if (is_curve[i]) {
      if (whole) VF(vf_close(a, whole[i]), "differs", "%s: position %d of a %s is %.17g instead of %.17g as read at once", what, i, kind_names[curve_of[i]->kind], a, whole[i]);
      double lo, hi;
      bezier_range(curve_of[i], i, &lo, &hi);
      VF(a >= lo && a <= hi, "off_curve", "%s: position %d of a %s is %g, not between %g and %g", what, i, kind_names[curve_of[i]->kind], a, lo, hi);
    } else VF(vf_close(a, value[i]), "value", "%s: position %d is %.17g instead of %.17g", what, i, a, value[i]);
  }
}
/* many or long segments */
static void many(void) {
  static const int N[] = {40, 300, 1500}, STEP[] = {1, 5, 64, 255, 1000, 4000, 70000};
  int n = N[vf_choose(3, "segments")], kinds = vf_choose(5, "kinds"), step = STEP[vf_choose(7, "step")], wide = vf_choose(4, "width"), order = vf_choose(3, "order"), copy = vf_choose(2, "copy");
  if (wide > 1) n = 4;
  int constant = vf_choose(2, "constant");
  if (wide == 3 && (step < 4000 || copy)) vf_skip();
  seg_n = n;
  if (n == 1500 && step < 64) vf_skip();
  spline_path_segment_t* s = vf_mem((n + 1) * sizeof *s);
  double x = 0, y = 0;
  memset(value, 0, sizeof value); memset(is_curve, 0, sizeof is_curve);
  vf_track = 1;
  for (int i = 0; i < n; i++) {
    seg_t* a = segs + i;
    int dx = wide == 3 ? 33000 + i : wide == 2 ? 300 + i : wide ? 1 + i % 7 : 2;
    a->kind = kinds == 0 ? LINE : kinds == 1 ? (i % 3 == 2 ? MOVE : LINE) : kinds == 2 ? (i & 1 ? LINE : BEZIER1) : kinds == 4 ? BEZIER2 : (int[]){LINE, BEZIER1, MOVE, BEZIER2}[i % 4];
    a->x0 = x; a->y0 = y; a->x1 = x + dx; a->y1 = i * 7 % 11 - 3;
    if (a->kind == MOVE) s[i] = spline_path_move(a->x1, a->y1);
    else if (a->kind == LINE) s[i] = spline_path_line(a->x1, a->y1);
    else if (a->kind == BEZIER1) { a->c[0] = x + dx / 2; a->c[1] = y + 2; s[i] = spline_path_bezier1(a->c[0], a->c[1], a->x1, a->y1); }
    else { a->c[0] = x + dx; a->c[1] = y - 3; a->c[2] = x + dx; a->c[3] = 4; s[i] = spline_path_bezier2(a->c[0], a->c[1], a->c[2], a->c[3], a->x1, a->y1); }
    x = a->x1; y = a->y1;
  }
  int size = path_size = x, limit = size + (constant ? 2000 : 2);
  if (constant) {
    s[n] = spline_path_constant();
    for (int i = size; i < limit; i++) value[i] = y;
    path_size = limit; n++;
  }
  for (int i = 0; i < n - constant; i++) for (int p = segs[i].x0; p < (int)segs[i].x1; p++) draw(segs + i, p);
  spline_path_t path;
  VF(!(copy ? spline_path_set_copy(&path, s, n) : spline_path_set(&path, s, n)), "set", "spline_path_set fails");
  VF(spline_path_size(path) == (size_t)size, "size", "size %zu instead of %d", spline_path_size(path), size);
  double* whole = read_range(&path, 0, limit);
  for (int i = 0; i < limit; i++) if (!is_curve[i]) VF(vf_close(whole[i], value[i]), "value", "position %d is %.17g instead of %.17g", i, whole[i], value[i]);
  else VF(whole[i] != UNSET, "unset", "position %d is not set", i);
  for (int i = 0; i < limit; i += 17) check_values(whole + i, i, i + 1, 0, "whole path");
  /* forward, backward or every other part */
  int parts = (limit + step - 1) / step;
  for (int k = 0; k < parts; k++) {
    int start = (order == 1 ? parts - 1 - k : order == 2 ? (k * 2) % parts : k) * step, end = start + step < limit ? start + step : limit;
    double* out = read_range(&path, start, end);
    for (int i = start; i < end; i++) VF(vf_close(out[i - start], whole[i]), "differs", "position %d is %.17g instead of %.17g as read at once", i, out[i - start], whole[i]);
  }
  spline_path_free(path);
  if (copy) free(path.segments);
  if (!order) {
    /* directly from the segments */
    int start = (limit / 7) * (1 + copy * 5), end = start + step < limit ? start + step : limit;
    double* out = vf_doubles(end - start);
    for (int i = 0; i < end - start; i++) out[i] = UNSET;
    VF(!spline_path_segments_get(s, n, start, end, out), "segments_get", "spline_path_segments_get fails");
    unset_after_end(out, start, end);
    for (int i = start; i < end; i++) VF(vf_close(out[i - start], whole[i]), "differs", "position %d is %.17g from the segments instead of %.17g as read at once", i, out[i - start], whole[i]);
  }
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live());
  fp_reset(); fp_doubles(whole, limit); fp_done();
}
/* paths in paths, with long inner paths that are read in parts and repeated */
static void nested(void) {
  static const int STEP[] = {1, 7, 64, 999, 20000};
  int depth = 1 + vf_choose(3, "depth"), width = vf_choose(2, "width") ? 300 : 3, step = STEP[vf_choose(5, "step")], order = vf_choose(3, "order"), n = 0;
  static spline_path_segment_t s[4][5]; static spline_path_t path[4];
  memset(value, 0, 20000 * sizeof *value); memset(is_curve, 0, 20000 * sizeof *is_curve);
  vf_track = 1;
  static double in[20000], e[20000];
  for (int d = 0; d <= depth; d++) {
    /* a line, the inner path, a line, the inner path again */
    int k = 0, p = 0; double y = 0;
    for (int part = 0; part < 4; part++) {
      if (part & 1) {
        if (!d) continue;
        s[d][k++] = spline_path_path(path[d - 1]);
        for (int i = 0; i < n; i++) e[p++] = in[i];
        y = spline_path_end(path[d - 1]).y;
      } else {
        double y1 = part ? 0 : d + 2;
        for (int i = 0; i < width; i++) e[p + i] = y + (y1 - y) * i / width;
        s[d][k++] = spline_path_line(p += width, y1);
        y = y1;
      }
    }
    VF(!spline_path_set(path + d, s[d], k), "set", "spline_path_set fails");
    n = p; memcpy(in, e, n * sizeof *e);
    VF(spline_path_size(path[d]) == (size_t)n, "size", "size %zu instead of %d", spline_path_size(path[d]), n);
  }
  memcpy(value, in, n * sizeof *in);
  path_size = n;
  check_values(read_range(path + depth, 0, n), 0, n, 0, "nested path");
  int parts = (n + step - 1) / step;
  for (int k = 0; k < parts; k++) {
    int start = (order == 1 ? parts - 1 - k : order == 2 ? (k * 2) % parts : k) * step, end = start + step < n ? start + step : n;
    check_values(read_range(path + depth, start, end), start, end, 0, "part of a nested path");
  }
  for (int d = 0; d <= depth; d++) spline_path_free(path[d]);
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live());
  fp_reset(); fp_doubles(in, n); fp_done();
}
static uint8_t prepare_fails(spline_path_segment_t* s) { return (s->points)[1].x > 0; }
/* a segment of the user that can not be prepared */
static void failing(void) {
  int n = vf_range(1, 4, "segments"), at = vf_choose(n, "failing"), set = vf_choose(3, "set");
  spline_path_segment_t* s = vf_mem(n * sizeof *s); spline_path_t path; double out[8];
  for (int i = 0; i < n; i++) s[i] = spline_path_line(2 * i + 2, i);
  s[at].prepare = prepare_fails;
  vf_track = 1;
  uint8_t r = set == 0 ? spline_path_set(&path, s, n) : set == 1 ? spline_path_set_copy(&path, s, n) : spline_path_segments_get(s, n, 0, 2 * n, out);
  vf_op();
  VF(r, "failure", "success although segment %d can not be prepared", at);
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live());
  fp_reset(); fp_int(n); fp_int(at); fp_done();
}
void vf_body(void) {
  int mode = vf_choose(4, "mode");
  if (mode == 2) { nested(); return; }
  if (mode == 3) { failing(); return; }
  if (mode) { many(); return; }
  static const double ys[] = {3, -2, 0.5, 0};
  seg_n = vf_range(1, 3, "segments");
  int reads = seg_n < 3 ? 2 : 0, wide = 0, copy = vf_choose(3, "set");
  spline_path_segment_t* s = vf_mem(seg_n * sizeof *s);
  spline_path_segment_t* inner_segments = 0;
  spline_path_t inner_path;
  double x = 0, y = 0;
  memset(value, 0, 40 * sizeof *value); memset(is_curve, 0, 40 * sizeof *is_curve);
  int endless = 0;
  vf_track = 1;
  for (int i = 0; i < seg_n; i++) {
    seg_t* a = segs + i;
    a->kind = vf_choose(inner_segments ? PATH : KINDS, "kind");
    if (a->kind == CONSTANT && i < seg_n - 1) vf_skip();
    int dx = a->kind == PATH || a->kind == CONSTANT ? 0 : seg_n == 1 ? vf_range(0, vf_bound(5, 7) + (a->kind == BEZIER2), "dx") : seg_n == 2 ? vf_range(i, vf_bound(3, 4), "dx") : vf_range(1, vf_bound(2, 3), "dx");
    /* curves that are steep at the ends have gaps between their points */
    if (a->kind == BEZIER2 && seg_n == 1 && dx == vf_bound(6, 8)) dx = 10, wide = 1;
    a->x0 = x; a->y0 = y; a->x1 = x + dx;
    a->y1 = a->kind == CONSTANT ? y : ys[seg_n == 1 ? vf_choose(dx == 10 ? 2 : 4, "y") : i];
    vf_note(" %s %g %g", kind_names[a->kind], a->x1, a->y1);
    if (a->kind == MOVE) s[i] = spline_path_move(a->x1, a->y1);
    else if (a->kind == LINE) s[i] = spline_path_line(a->x1, a->y1);
    else if (a->kind == CONSTANT) { s[i] = spline_path_constant(); endless = 1; }
    else if (a->kind == BEZIER1) {
      a->c[0] = x + vf_choose(dx + 1, "control x"); a->c[1] = y + 2;
      s[i] = spline_path_bezier1(a->c[0], a->c[1], a->x1, a->y1);
    } else if (a->kind == BEZIER2) {
      a->c[0] = x + (dx == 10 ? 10 - 5 * vf_choose(2, "control x") : seg_n == 1 ? vf_choose(dx + 1, "control x") : (i + 1) % (dx + 1)); a->c[1] = y - 3; a->c[2] = dx == 10 ? x + dx : x + (a->x1 - a->c[0]) / 2; a->c[3] = 4;
      s[i] = spline_path_bezier2(a->c[0], a->c[1], a->c[2], a->c[3], a->x1, a->y1);
    } else if (a->kind == ARC) {
      static const double cs[] = {1, -1, 0.5, 0, -0.25};
      double c = cs[seg_n == 1 ? vf_choose(5, "curvature") : i];
      if (!dx || a->y0 == a->y1) vf_skip();
      arc_control(a->x0, a->y0, a->x1, a->y1, c, a->c, a->c + 1);
      s[i] = spline_path_bezier_arc(a->x1, a->y1, c);
      if (c == 0) a->kind = LINE;
    } else {
      /* path of two lines with a place to start that does not connect */
      inner_segments = vf_mem(2 * sizeof *inner_segments);
      int d = vf_range(1, 2, "inner");
      double inner_end = d == 1 ? -1 : 0;
      inner_segments[0] = spline_path_line(d, 6); inner_segments[1] = spline_path_line(3, inner_end);
      inner[0] = (seg_t){LINE, 0, 0, d, 6}; inner[1] = (seg_t){LINE, d, 6, 3, inner_end};
      VF(!spline_path_set(&inner_path, inner_segments, 2), "set", "spline_path_set fails");
      s[i] = spline_path_path(inner_path);
      a->x1 = x + 3; a->y1 = inner_end;
    }
    x = a->x1; y = a->y1;
  }
  for (int i = 0; i < seg_n; i++) {
    for (int p = segs[i].x0; p < (segs[i].kind == CONSTANT ? 30 : (int)segs[i].x1); p++) draw(segs + i, p);
  }
  int size = path_size = x, limit = size + 2;
  fp_reset(); fp_int(size); fp_int(seg_n);
  if (copy == 2) {
    /* the segments and a range in one step */
    int start = vf_choose(limit, "start"), end = start + vf_choose(limit - start + 1, "size");
    double* out = vf_doubles(end - start);
    for (int i = 0; i < end - start; i++) out[i] = UNSET;
    VF(!spline_path_segments_get(s, seg_n, start, end, out), "segments_get", "spline_path_segments_get fails");
    vf_op();
    unset_after_end(out, start, end);
    check_values(out, start, end, 0, "spline_path_segments_get");
    VF(!vf_live(), "leak", "%ld blocks not freed", vf_live());
    fp_doubles(out, end - start); fp_done();
    return;
  }
  spline_path_t path;
  memset(&path, 0x55, sizeof path);
  if (copy) {
    VF(!spline_path_set_copy(&path, s, seg_n), "set_copy", "spline_path_set_copy fails");
    memset(s, 0x55, seg_n * sizeof *s);
  } else VF(!spline_path_set(&path, s, seg_n), "set", "spline_path_set fails");
  spline_path_point_t p0 = spline_path_start(path), p1 = spline_path_end(path);
  VF(p0.x == 0 && p0.y == 0, "start", "start %g %g", p0.x, p0.y);
  VF(p1.x == x && p1.y == y, "end", "end %g %g instead of %g %g", p1.x, p1.y, x, y);
  VF(spline_path_size(path) == (size_t)size, "size", "size %zu instead of %d", spline_path_size(path), size);
  double* whole = read_range(&path, 0, limit);
  check_values(whole, 0, limit, 0, "whole path");
  fp_doubles(whole, limit);
  if (reads) {
    if (wide) reads = 1;
    for (int r = 0; r < reads; r++) {
      int start = vf_choose(limit, "start"), end = start + vf_choose(limit - start + 1, "size");
      vf_note(" read %d-%d", start, end);
      check_values(read_range(&path, start, end), start, end, whole, "range");
    }
  } else {
    int fresh = vf_choose(2, "from the start");
    if (fresh) read_range(&path, 0, 1);
    for (int t = 0, cut; t < limit; t = cut) {
      cut = next_cut(t, limit, "cut");
      check_values(read_range(&path, t, cut), t, cut, whole, "partition");
    }
  }
  check_values(read_range(&path, 0, limit), 0, limit, whole, "whole path again");
  spline_path_free(path);
  if (copy) free(path.segments);
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live());
  fp_done();
}
