#define HUGE_SIZES
#include <unistd.h>
#include "common.h"
/* plot data files and commands. system() is a stand-in that records the command */
void vf_init(void) { sp_initialize(0, 1, 8); }
static const double VALUES[] = {0, 1, -1.5, 0.125, 1000, -0.0625, 0.0004};
static const uint32_t TIMES[] = {0, 1, 7, 4294967295u, 1000000};
static double lines[70000];
static int line_n;
static char text[1000000];
static char previous[16][600];
static unsigned previous_n;
static void read_lines(const char* path) {
  FILE* f = fopen(path, "r");
  VF(f, "no_file", "no data file has been written");
  int size = fread(text, 1, sizeof text - 1, f);
  fclose(f);
  text[size] = 0;
  line_n = 0;
  VF(!size || text[size - 1] == '\n', "last_line", "the last line is incomplete");
  for (char* p = text; *p;) {
    char* e = strchr(p, '\n'), *q;
    *e = 0;
    lines[line_n++] = strtod(p, &q);
    VF(q != p && !*q, "line", "line \"%s\"", p);
    p = e + 1;
  }
}
void vf_body(void) {
  int op = vf_choose(6, "function"), times = op == 1 || op == 4, spectrum = op == 2 || op == 5;
  int n = choose_size(spectrum, spectrum ? vf_bound(6, 8) : vf_bound(4, 5), "size");
  if (spectrum && n == HUGE_SIZE) { n = 5003; }
  double* a = 0; uint32_t* b = 0;
  if (times) { b = choose_u32s(n, TIMES, 5, "value"); note_u32s("a", b, n < 20 ? n : 0); }
  else { a = choose_doubles(n, spectrum ? VALUES + 1 : VALUES, spectrum ? 3 : 7 - (n > 3) * 3, "value"); note_doubles("a", a, n < 20 ? n : 0); }
  double* a2 = a ? copy_doubles(a, n) : 0; uint32_t* b2 = b ? copy_u32s(b, n) : 0;
  int fail = vf_choose(2, "fail") ? 1 + vf_choose(8, "failing allocation or call") : 0, io = fail ? vf_choose(2, "stdio") : 0;
  char path[600]; snprintf(path, sizeof path, "%s", vf_scratch("plot"));
  remove(path);
  vf_track = vf_io_track = 1;
  if (io) vf_io_fail_at = fail; else vf_fail_at = fail;
  if (op == 0) sp_plot_samples_to_file(a, n, (uint8_t*)path);
  else if (op == 1) sp_plot_times_to_file(b, n, (uint8_t*)path);
  else if (op == 2) sp_plot_spectrum_to_file(a, n, (uint8_t*)path);
  else if (op == 3) sp_plot_samples(a, n);
  else if (op == 4) sp_plot_times(b, n);
  else sp_plot_spectrum(a, n);
  vf_op();
  int failed = vf_io_failed[0] || vf_fail_count;
  vf_track = vf_io_track = 0; vf_fail_at = vf_io_fail_at = 0;
  VF(!vf_open_files(), "file_leak", "%d files left open", vf_open_files());
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live());
  if (a) VF(!memcmp(a, a2, n * sizeof *a), "input", "input has been changed");
  if (b) VF(!memcmp(b, b2, n * sizeof *b), "input", "input has been changed");
  fp_reset(); fp_int(op); fp_int(n); fp_int(failed);
  if (fail && !failed) vf_trivial();
  if (op == 2 && vf_fail_count && !access(path, F_OK)) { read_lines(path); VF(!line_n, "data_without_memory", "%d lines are written although memory is missing", line_n); remove(path); }
  if (failed) { fp_done(); return; }
  if (op > 2) {
    /* a single gnuplot command that names the data file */
    char* p = strstr(vf_system_command, "\"/tmp/sp-plot");
    VF(vf_system_count == 1 && p && !strncmp(vf_system_command, "gnuplot ", 8), "command", "%d commands, last: %s", vf_system_count, vf_system_command);
    VF(vf_system_command[strlen(vf_system_command) - 1] == '\'' && strchr(vf_system_command, '\'') < p, "command_end", "command: %s", vf_system_command);
    snprintf(path, sizeof path, "%s", vf_scratch(p + 6));
    *strchr(path + (strlen(path) - strlen(p + 6)), '"') = 0;
  }
  if (op > 2) {
    /* plots made one after another have files of their own */
    for (int i = 0; i < 16; i++) VF(strcmp(path, previous[i]), "reused_file", "two of 16 plots in succession use %s", path);
    strcpy(previous[previous_n++ % 16], path);
  }
  read_lines(path);
  remove(path);
  VF(line_n == n, "lines", "%d lines for %d values", line_n, n);
  for (int i = 0; i < n; i++) {
    double e = times ? b[i] : a ? a[i] : 0;
    if (spectrum) {
      double re = 0, im = 0;
      /* of large spectra a part */
      if (n > LARGE && i % 97 && i > 3 && i < n - 3) continue;
      for (int j = 0; j < n; j++) { long p = (long)i * j % n; re += a[j] * cos(2 * M_PI * p / n); im -= a[j] * sin(2 * M_PI * p / n); }
      e = 2 * sqrt(re * re + im * im) / n;
    }
    VF(times ? lines[i] == e : vf_near(lines[i], e, 0.00051), "value", "line %d is %.10g instead of %.10g", i, lines[i], e);
    fp_double(lines[i]);
  }
  fp_done();
}
