#include "common.h"
#include <sph-sp/string.h>
#include <sph-sp/filesystem.h>
#include <dirent.h>
/* string and path helpers over all short strings, directory creation over all small directory trees */
void vf_init(void) { umask(022); }
static uint8_t* choose_string(int max, const char* letters, const char* label) {
  int n = vf_choose(max + 2, label), length;
  if (n > max) {
    /* longer strings */
    int pattern = vf_choose(4, label);
    length = (int[]){41, 301, 5003}[vf_choose(3, label)];
    uint8_t* a = vf_mem(length + 1);
    int m = strlen(letters);
    for (int i = 0; i < length; i++) a[i] = letters[pattern == 0 ? 1 % m : pattern == 1 ? 0 : pattern == 2 ? i % m : !(i == length - 1 || i == length / 2)];
    a[length] = 0;
    vf_note(" %d letters of pattern %d", length, pattern);
    return a;
  }
  uint8_t* a = vf_mem(n + 1);
  for (int i = 0; i < n; i++) a[i] = letters[vf_choose(strlen(letters), label)];
  a[n] = 0;
  vf_note(" \"%s\"", a);
  return a;
}
static int is_directory(const char* path) { struct stat s; return !stat(path, &s) && S_ISDIR(s.st_mode); }
static void remove_tree(const char* path) {
  DIR* d = opendir(path);
  if (!d) { unlink(path); return; }
  struct dirent* e;
  while ((e = readdir(d))) {
    char b[1400];
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    snprintf(b, sizeof b, "%s/%s", path, e->d_name);
    struct stat s;
    if (!lstat(b, &s) && S_ISDIR(s.st_mode)) remove_tree(b); else unlink(b);
  }
  closedir(d);
  rmdir(path);
}
void vf_body(void) {
  int op = vf_choose(6, "function"), fails = vf_choose(op == 5 ? 5 : 3, "failing allocation");
  vf_note(" function %d", op);
  fp_reset(); fp_int(op);
  uint8_t* r;
  size_t len = 12345;
  if (op < 5) {
    enum { MANY = 5200 };
    uint8_t* a[MANY], *b = 0, *copy[MANY];
    int n = 1;
    if (op == 2) b = choose_string(3, "/x", "b");
    if (op == 3) { n = vf_choose(6, "count"); if (n > 3) n = n == 4 ? 305 : MANY; b = choose_string(2, ",x", "delimiter"); if (n == MANY && strlen(b) > 2) n = 1500; }
    for (int i = 0; i < n; i++) {
      if (n > 3 && i) a[i] = (uint8_t*[]){a[0], (uint8_t*)"", (uint8_t*)"ab,", (uint8_t*)"x"}[n == MANY ? i % 1000 ? 1 + i % 3 : 0 : i * 3 % 7 % 4];
      else a[i] = choose_string(op == 3 ? vf_bound(2, 3) : op == 2 ? 3 : vf_bound(6, 9), op == 3 ? "a," : "/x", "a");
      copy[i] = vf_mem(strlen(a[i]) + 1); strcpy(copy[i], a[i]);
    }
    static char e[24 << 20]; e[0] = 0;
    vf_track = 1; vf_fail_at = fails;
    if (op == 0) {
      uint8_t* result = 0;
      int s = ensure_trailing_slash(a[0], &result);
      vf_track = 0;
      snprintf(e, sizeof e, "%s/", a[0]);
      if (!a[0][0] || a[0][strlen(a[0]) - 1] == '/') { VF(s == 0 && result == a[0], "slash_same", "status %d for \"%s\"", s, a[0]); VF(!vf_live(), "leak", "leak"); fp_done(); return; }
      if (vf_fail_count) { VF(s == 1, "slash_memory", "status %d without memory", s); VF(!vf_live(), "leak", "leak"); fp_done(); return; }
      VF(s == 2 && result && result != a[0], "slash_new", "status %d for \"%s\"", s, a[0]);
      r = result;
    } else if (op == 1) { r = string_clone(a[0]); snprintf(e, sizeof e, "%s", a[0]); }
    else if (op == 2) { r = string_append(a[0], b); snprintf(e, sizeof e, "%s%s", a[0], b); }
    else if (op == 3) {
      r = string_join(a, n, b, &len);
      { char* p = e; for (int i = 0; i < n; i++) { if (i) strcpy(p, b), p += strlen(b); strcpy(p, a[i]); p += strlen(a[i]); } }
      if (!n) { VF(!r, "join_empty", "joining nothing gives a string"); fp_done(); return; }
    } else {
      r = dirname_2(a[0]);
      /* parent by the rules of posix: without trailing slashes, last component and the slashes before it */
      int m = strlen(a[0]);
      while (m > 1 && a[0][m - 1] == '/') m--;
      while (m && a[0][m - 1] != '/') m--;
      while (m > 1 && a[0][m - 1] == '/') m--;
      if (!m) strcpy(e, "."); else { memcpy(e, a[0], m); e[m] = 0; }
    }
    vf_track = 0; vf_op();
    for (int i = 0; i < n; i++) VF(!strcmp(a[i], copy[i]), "input", "input has been changed to \"%s\"", a[i]);
    if (vf_fail_count) { VF(!r, "memory", "result without memory"); VF(!vf_live(), "leak", "%ld blocks not freed without memory", vf_live()); fp_done(); return; }
    if (fails) vf_trivial();
    VF(r, "no_result", "no result");
    /* two leading slashes may be kept */
    if (op == 4 && !strcmp(r, "//") && !strcmp(e, "/") && a[0][0] == '/' && a[0][1] == '/') e[1] = '/', e[2] = 0;
    VF(!strcmp(r, e), "string", "\"%s\" instead of \"%s\"", r, e);
    if (op == 3) VF(len == strlen(e), "length", "length %zu instead of %zu", len, strlen(e));
    for (int i = 0; i < n; i++) VF(r != a[i], "new", "result is not a new string");
    VF(vf_live() == 1, "result_memory", "%ld blocks for one result", vf_live());
    fp_add(r, strlen(r));
    free(r);
    fp_done(); return;
  }
  /* directories: components of a path exist as directory, file or not at all */
  char base[300], path[900];
  int many = vf_choose(2, "many"), components = many ? 40 : vf_range(1, vf_bound(4, 5), "components"), existing = many ? vf_choose(3, "existing") * 20 : vf_choose(components + 1, "existing"), file_at = vf_choose(3, "file"), slash = vf_choose(2, "trailing slash"), separator = vf_choose(3, "separator"), dot = vf_choose(2, "dot");
  snprintf(base, sizeof base, "%s", vf_scratch("tree"));
  remove_tree(base);
  VF(!mkdir(base, 0755), "setup", "scratch directory");
  snprintf(path, sizeof path, "%s", base);
  for (int i = 0; i < components; i++) {
    strcat(path, i ? (const char*[]){"/", "//", "/./"}[separator] : "/"); strcat(path, i % 2 ? "b" : "a");
    if (i < existing) {
      VF(!mkdir(path, 0755), "setup", "scratch directory");
    } else if (i == existing && file_at) {
      if (file_at == 1) { FILE* f = fopen(path, "w"); fclose(f); }
      else { /* not a writable place: a dangling link */ VF(!symlink("missing/missing", path), "setup", "link"); }
    }
  }
  if (dot) strcat(path, "/.");
  if (slash) strcat(path, "/");
  vf_note(" %d components, %d exist, %d", components, existing, file_at);
  char* given = vf_mem(strlen(path) + 1); strcpy(given, path);
  vf_track = 1; vf_fail_at = fails;
  uint8_t s = ensure_directory_structure((uint8_t*)given, 0700);
  vf_track = 0; vf_op();
  VF(!strcmp(given, path), "input", "the path has been changed to %s", given);
  VF(!vf_live(), "leak", "%ld blocks not freed", vf_live());
  int exists = is_directory(path);
  fp_int(s); fp_int(exists); fp_int(vf_fail_count);
  int blocked = existing < components && file_at;
  /* a file at the last place exists, which is what is asked for by the name of the path */
  if (blocked && existing == components - 1) { VF(!exists, "replaced", "a file has been replaced"); VF(!s || !access(path, F_OK), "success_missing", "success but %s does not exist", path); }
  else if (s) VF(exists, "success_missing", "success but %s does not exist", path);
  if (!vf_fail_count && !blocked) VF(s == 1 && exists, "not_created", "status %d, exists %d", s, exists);
  if (blocked && existing < components - 1) VF(!s, "blocked_success", "success below a file");
  if (exists) {
    /* all directories that have been created */
    char p[900]; snprintf(p, sizeof p, "%s", base);
    for (int i = 0; i < components; i++) {
      struct stat st;
      strcat(p, i % 2 ? "/b" : "/a");
      VF(!stat(p, &st) && (st.st_mode & 0777) == (i < existing ? 0755 : 0700), "mode", "mode %o of directory %d with %d existing", st.st_mode & 0777, i, existing);
    }
  }
  if (fails && !vf_fail_count) vf_trivial();
  remove_tree(base);
  fp_done();
}
