#define HUGE_SIZES
#include "seq.h"
extern FILE* open_memstream(char**, size_t*);
/* text written to standard output, captured by a memory stream in place of stdout */
void vf_init(void) { sp_initialize(0, 1, 8); }
static const double VALUES[] = {0, 1, -1.5, 0.125, 70000.25, -0.00001, 0.000004, 123456.78125};
static const uint32_t TIMES[] = {0, 1, 10, 4294967295u, 1000000};
static char* text;
static size_t text_size;
static FILE* standard;
static void capture(void) {
  fflush(stdout);
  standard = stdout;
  text = 0; text_size = 0;
  stdout = open_memstream(&text, &text_size);
}
static void captured(void) { fclose(stdout); stdout = standard; }
static char *expected, *end_of;
static void expect_start(size_t size) { expected = end_of = vf_mem(size); *end_of = 0; }
#define EXPECT(...) (end_of += sprintf(end_of, __VA_ARGS__))
static void same_text(const char* key) { VF(!strcmp(text, expected), key, "\"%.300s\" instead of \"%.300s\"", text, expected); }
/* one line per event with addresses and times */
static void lists(void) {
  static const uint32_t T[] = {0, 3, 65536, 4294967294u};
  int n = vf_choose(2, "many") ? (int[]){17, 300}[vf_choose(2, "events")] : vf_choose(5, "events"), lines = 0;
  uint32_t start_of[300], end_of[300];
  sp_event_list_t* list = 0;
  sp_event_t e;
  for (int i = 0; i < n; i++) {
    memset(&e, 0, sizeof e);
    start_of[i] = e.start = n > 4 ? i * 70001u : T[vf_choose(4, "start")];
    end_of[i] = e.end = n > 4 ? e.start + i % 7 : e.start + vf_choose(2, "duration");
    VF(!sp_event_list_add(&list, e).id, "add", "adding fails");
  }
  capture();
  sp_event_list_display(list);
  captured();
  char* p = text;
  sp_event_list_t* previous = 0;
  for (sp_event_list_t* a = list; a; previous = a, a = a->next, lines++) {
    char line[300];
    snprintf(line, sizeof line, "%lu %lu %lu event %lu %lu\n", (unsigned long)previous, (unsigned long)a, (unsigned long)a->next, (unsigned long)a->event.start, (unsigned long)a->event.end);
    VF(!strncmp(p, line, strlen(line)), "list", "line %d is \"%.100s\" instead of \"%s\"", lines, p, line);
    p += strlen(line);
  }
  VF(lines == n && !*p, "list", "%d lines for %d events, then \"%.50s\"", lines, n, p);
  fp_int(n); for (int i = 0; i < n; i++) fp_int(start_of[i] + end_of[i]);
  sp_event_list_free(&list);
}
/* rates and durations of messages, one percentage per complete block */
static void messages(void) {
  static const uint32_t RATES[] = {8, 1000, 44100, 192000};
  int mode = vf_choose(4, "function");
  uint32_t rate = RATES[vf_choose(4, "rate")], seconds = rate > 1000 ? vf_choose(3, "seconds") : vf_choose(12, "seconds"), rest = (uint32_t[]){0, 1, rate / 3, rate / 2, rate - 1}[vf_choose(5, "rest")], duration = seconds * rate + rest;
  if (!duration) vf_skip();
  sp_event_t e;
  const char* path = vf_scratch("rendered.wav");
  remove(path);
  sp_rate = rate;
  absolute_times = in_order = 0;
  uint32_t block = mode > 1 ? (uint32_t[]){duration, duration / 2 + 1, duration / 3 + 1, duration / 7 + 1, duration / 13 + 1, duration / 300 + 1}[vf_choose(6, "block")] : 0;
  uint32_t start = mode > 1 && vf_choose(2, "start") ? duration / 4 : 0, size = duration - start;
  probe_new(&e, 0, duration, 0);
  block_start = 0; block_end = duration;
  vf_note("duration %u at rate %u, block %u, from %u", duration, rate, block, start);
  capture();
  status_t s = mode == 0 ? sp_render_file(e, (uint8_t*)path) : mode == 1 ? sp_render_plot(e) : sp_render_range_file(e, start, duration, sp_render_config(1, rate, block, mode == 2), (uint8_t*)path);
  captured();
  remove(path);
  sp_rate = 8;
  VF(!s.id, "status", "status %d", s.id);
  char* p = text;
  if (mode == 0) {
    expect_start(1000);
    EXPECT("rendering %u seconds to file %s\n", duration / rate, path);
    VF(!strncmp(text, expected, strlen(expected)), "message", "\"%.200s\" instead of \"%s\"", text, expected);
    p += strlen(expected);
  } else if (mode == 1) {
    expect_start(1000);
    if (duration < rate) EXPECT("rendering %u milliseconds to plot\n", (uint32_t)(1000ull * duration / rate)); else EXPECT("rendering %u seconds to plot\n", duration / rate);
    VF(!strncmp(text, expected, strlen(expected)), "message", "\"%.200s\" instead of \"%s\"", text, expected);
    p += strlen(expected);
  }
  if (mode > 1) {
    uint32_t blocks = mode == 2 ? size / block : 0;
    for (uint32_t i = 0; i < blocks; i++) {
      char* q;
      double v = strtod(p, &q), e = 100.0 * i / blocks;
      VF(q != p && fabs(v - e) < 0.0501 && q[0] == '%' && q[1] == '\n', "progress", "line %u of %u is \"%.60s\" instead of %g%%", i, blocks, p, e);
      p = q + 2;
    }
    VF(!*p, "progress", "additional text \"%.60s\"", p);
  } else {
    /* ascending percentages below hundred */
    double before = -1;
    while (*p) {
      char* q;
      double v = strtod(p, &q);
      VF(q != p && q[0] == '%' && q[1] == '\n' && v > before - 1e-9 && v >= 0 && v < 100, "progress", "progress \"%.60s\" after %g", p, before);
      before = v;
      p = q + 2;
    }
  }
  fp_int(duration); fp_int(rate); fp_int(block);
}
void vf_body(void) {
  int op = vf_choose(5, "function");
  fp_reset(); fp_int(op);
  probes_reset();
  if (op > 2) { vf_op(); if (op == 3) lists(); else messages(); free(text); fp_done(); return; }
  int n = vf_choose(2, "empty") ? choose_size(0, vf_bound(4, 5), "size") : 0;
  if (op == 0) {
    uint32_t* a = choose_u32s(n, TIMES, 5, "value");
    note_u32s("a", a, n < 20 ? n : 0);
    expect_start(12 * n + 2);
    for (int i = 0; i < n; i++) EXPECT(i ? " %u" : "%u", a[i]);
    capture(); sp_times_display(a, n); captured();
    fp_add(a, n * 4);
  } else if (op == 1) {
    double* a = choose_doubles(n, VALUES, 8 - 3 * (n > 3), "value");
    note_doubles("a", a, n < 20 ? n : 0);
    expect_start(30 * n + 2);
    for (int i = 0; i < n; i++) EXPECT(i ? " %.5f" : "%.5f", a[i]);
    capture(); sp_samples_display(a, n); captured();
    fp_doubles(a, n);
  } else {
    /* all octets alone, all pairs of some, larger areas. the least significant bit comes first */
    uint8_t* a = vf_mem(n + 1);
    int all = n == 1 ? vf_choose(256, "octet") : 0, single = vf_choose(2, "octets");
    if (single && n != 1) vf_skip();
    for (int i = 0; i < n; i++) a[i] = n == 1 ? all : n < 4 ? (uint8_t[]){0, 1, 128, 90, 255}[vf_choose(5, "octet")] : i * 37 + i / 7;
    expect_start(8 * n + 2);
    for (int i = 0; i < n; i++) for (int k = 0; k < 8; k++) EXPECT("%d", 1 & (a[i] >> k));
    capture(); if (single) sph_helper_display_bits_u8(all); else sph_helper_display_bits(a, n); captured();
    fp_add(a, n);
    if (single) EXPECT("%s", "");
    if (single) { same_text("bits"); free(text); fp_done(); return; }
  }
  vf_op();
  EXPECT("\n");
  same_text(op == 0 ? "times" : op == 1 ? "samples" : "bits");
  free(text);
  fp_done();
}
