#define _GNU_SOURCE
#include "mc.h"
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern void __real_free(void*);
#ifdef VF_SCHED
extern void* __real_memset(void*, int, size_t);
extern void* __real_memcpy(void*, const void*, size_t);
#define memset __real_memset
#define memcpy __real_memcpy
#endif

#define MAXD 16384
typedef struct {
  volatile uint64_t execs;
  volatile int depth;
  int ch[MAXD];
  int n[MAXD];
} shared_t;
static shared_t* sh;
static const char* labels[MAXD];
static int prefix_len; /* choices to replay */
static int cur; /* current depth */
static int split_depth = 3, shards = 1, shard = 0, replaying = 0, thorough = 0, own, trivial;
static uint64_t prefix_hash;
static uint64_t n_exec, n_choices, n_ops, n_nontrivial, max_depth;
static jmp_buf end_of_execution;
static const char* out_path;
static const char* scratch_dir = ".";
static char note[4096];
static size_t note_len;
static FILE* out;
static char known_hit[32][128];
static int known_hits;
static const char* known_keys = "";
static int hang_limit = 25;
static double wall_limit = 0;
static int capped = 0;

/* distinct states */
static uint64_t* set;
static size_t set_cap, set_n;
static int set_full;
static void set_add(uint64_t h) {
  if (!h) h = 1;
  if (set_full) return;
  if (2 * (set_n + 1) > set_cap) {
    size_t cap = set_cap ? 2 * set_cap : 4096;
    if (cap > (1u << 24)) { set_full = 1; return; }
    uint64_t* b = __real_calloc(cap, 8);
    for (size_t i = 0; i < set_cap; i++) if (set[i]) {
      size_t j = set[i] & (cap - 1);
      while (b[j]) j = (j + 1) & (cap - 1);
      b[j] = set[i];
    }
    if (set) __real_free(set);
    set = b; set_cap = cap;
  }
  size_t j = h & (set_cap - 1);
  while (set[j]) { if (set[j] == h) return; j = (j + 1) & (set_cap - 1); }
  set[j] = h; set_n++;
}
static uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 27; h *= 0x94d049bb133111ebull; h ^= h >> 31;
  return h;
}
void vf_state(const void* a, size_t size) {
  uint64_t h = 0x12345678 + size;
  const uint8_t* p = a;
  while (size >= 8) { uint64_t v; memcpy(&v, p, 8); h = mix(h, v); p += 8; size -= 8; }
  uint64_t v = 0;
  memcpy(&v, p, size);
  set_add(mix(h, v));
}
void vf_state_u64(uint64_t a) { vf_state(&a, 8); }

int vf_thorough(void) { return thorough; }
void vf_op(void) { n_ops++; }
void vf_trivial(void) { trivial = 1; }
void vf_note(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  if (note_len < sizeof(note) - 1) {
    int k = vsnprintf(note + note_len, sizeof(note) - note_len, fmt, ap);
    if (k > 0) note_len += k;
    if (note_len > sizeof(note) - 1) note_len = sizeof(note) - 1;
  }
  va_end(ap);
}
void vf_skip(void) {
  trivial = 1;
  longjmp(end_of_execution, 1);
}
static void print_choices(FILE* f) {
  for (int i = 0; i < cur; i++) fprintf(f, "%s%d", i ? "," : "", sh->ch[i]);
  fprintf(f, "\n");
}
static void print_case(FILE* f) {
  size_t total = 0;
  for (int i = 0; i < cur && total < 3000; i++) total += fprintf(f, "%s%s=%d/%d", i ? " " : "", labels[i], sh->ch[i], sh->n[i]);
  if (note_len) {
    fprintf(f, " |");
    for (size_t i = 0; i < note_len && i < 1500; i++) fputc(note[i] == '\n' ? ' ' : note[i], f);
  }
  fprintf(f, "\n");
}
static void finish_output(void) {
  for (int i = 0; i < known_hits; i++) fprintf(out, "known %s\n", known_hit[i]);
  fprintf(out, "stats %llu %llu %llu %llu %llu %zu %d %d\n", (unsigned long long)n_exec, (unsigned long long)n_choices,
    (unsigned long long)n_ops, (unsigned long long)n_nontrivial, (unsigned long long)max_depth, set_n, set_full, capped);
  char path[4096];
  snprintf(path, sizeof path, "%s.states", out_path);
  FILE* f = fopen(path, "wb");
  if (f) {
    for (size_t i = 0; i < set_cap; i++) if (set[i]) fwrite(set + i, 8, 1, f);
    fclose(f);
  }
  fprintf(out, "done\n");
  fclose(out);
}
void vf_fail(const char* key, const char* fmt, ...) {
  char msg[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(msg, sizeof msg, fmt, ap);
  va_end(ap);
  for (char* p = msg; *p; p++) if (*p == '\n') *p = ' ';
  int save = vf_track, saveio = vf_io_track;
  vf_track = 0;
  vf_io_track = 0;
  char pattern[200];
  snprintf(pattern, sizeof pattern, "|%s|", key);
  if (strstr(known_keys, pattern)) {
    int i;
    for (i = 0; i < known_hits; i++) if (!strcmp(known_hit[i], key)) break;
    if (i == known_hits && known_hits < 32) snprintf(known_hit[known_hits++], 128, "%s", key);
    vf_track = save; vf_io_track = saveio;
    longjmp(end_of_execution, 1);
  }
  fprintf(out, "violation %s\nmessage %s\nchoices ", key, msg);
  print_choices(out);
  fprintf(out, "case ");
  print_case(out);
  n_exec++;
  finish_output();
  _exit(1);
}
int vf_choose(int n, const char* label) {
  int c;
  if (n < 1) { fprintf(stderr, "vf_choose: no alternatives at %s\n", label); _exit(90); }
  if (cur >= MAXD - 1) { fprintf(stderr, "vf_choose: too deep\n"); _exit(90); }
  if (!replaying && cur == split_depth) {
    own = (int)(prefix_hash % shards) == shard;
    if (!own) longjmp(end_of_execution, 2);
  }
  if (cur < prefix_len) {
    c = sh->ch[cur];
    if (replaying) {
      if (c >= n) { fprintf(stderr, "replay diverged: choice %d of %d at %s\n", c, n, label); _exit(91); }
    } else if (sh->n[cur] != n) {
      fprintf(stderr, "nondeterminism: %d alternatives instead of %d at %s (depth %d)\n", n, sh->n[cur], label, cur);
      _exit(92);
    }
  } else {
    c = 0;
    sh->ch[cur] = 0;
  }
  sh->n[cur] = n;
  labels[cur] = label;
  prefix_hash = mix(prefix_hash, c + 1000003ull * n);
  cur++;
  sh->depth = cur;
  if (n > 1) n_choices++;
  return c;
}
int vf_range(int lo, int hi, const char* label) { return lo + vf_choose(hi - lo + 1, label); }

/* memory */
int vf_track, vf_fail_sticky;
long vf_alloc_count, vf_fail_at, vf_fail_count;
typedef struct node { void* p; size_t size; long seq; struct node *next; } node_t;
#define BUCKETS 4096
static node_t* buckets[BUCKETS];
static node_t* node_pool;
static long live, alloc_seq;
static size_t live_bytes;
static unsigned bucket(void* p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) % BUCKETS; }
static void track_add(void* p, size_t size) {
  node_t* a = node_pool;
  if (a) node_pool = a->next; else a = __real_malloc(sizeof *a);
  a->p = p; a->size = size; a->seq = ++alloc_seq;
  unsigned b = bucket(p);
  a->next = buckets[b];
  buckets[b] = a;
  live++;
  live_bytes += size;
}
static int track_remove(void* p, size_t* size) {
  node_t** a = &buckets[bucket(p)];
  while (*a) {
    if ((*a)->p == p) {
      node_t* b = *a;
      *a = b->next;
      if (size) *size = b->size;
      live_bytes -= b->size;
      b->next = node_pool; node_pool = b;
      live--;
      return 1;
    }
    a = &(*a)->next;
  }
  return 0;
}
long vf_live(void) { return live; }
long vf_mark(void) { return alloc_seq; }
long vf_live_since(long mark) {
  long n = 0;
  for (int i = 0; i < BUCKETS; i++) for (node_t* a = buckets[i]; a; a = a->next) n += a->seq > mark;
  return n;
}
void vf_alloc_reset(void) { vf_alloc_count = 0; vf_fail_at = 0; vf_fail_count = 0; vf_fail_sticky = 0; }
static int alloc_fails(size_t size) {
  vf_alloc_count++;
  if (vf_fail_at && (vf_alloc_count == vf_fail_at || (vf_fail_sticky && vf_alloc_count > vf_fail_at))) {
    vf_fail_count++;
    errno = ENOMEM;
    return 1;
  }
  if (size > (1ull << 30) || live_bytes + size > (4ull << 30)) { errno = ENOMEM; return 1; }
  return 0;
}
#ifdef VF_SCHED
void* vf_arena_alloc(size_t size);
void vf_arena_free(void* p);
#define RAW_MALLOC(s) vf_arena_alloc(s)
#define RAW_FREE(p) vf_arena_free(p)
#else
#define RAW_MALLOC(s) __real_malloc(s)
#define RAW_FREE(p) __real_free(p)
#endif
void* __wrap_malloc(size_t size) {
  if (!vf_track) return __real_malloc(size);
  if (alloc_fails(size)) return 0;
  void* p = RAW_MALLOC(size);
  if (!p) return 0;
  memset(p, 0xff, size);
  track_add(p, size);
  return p;
}
void* __wrap_calloc(size_t n, size_t m) {
  if (!vf_track) return __real_calloc(n, m);
  if (m && n > SIZE_MAX / m) return 0;
  if (alloc_fails(n * m)) return 0;
  void* p = RAW_MALLOC(n * m);
  if (!p) return 0;
  memset(p, 0, n * m);
  track_add(p, n * m);
  return p;
}
void* __wrap_realloc(void* q, size_t size) {
  size_t old = 0;
  if (!vf_track) return __real_realloc(q, size);
  if (alloc_fails(size)) return 0;
  void* p = RAW_MALLOC(size);
  if (!p) return 0;
  memset(p, 0xff, size);
  if (q) {
    if (track_remove(q, &old)) { memcpy(p, q, old < size ? old : size); RAW_FREE(q); }
    else { __real_free(p); p = __real_realloc(q, size); }
  }
  track_add(p, size);
  return p;
}
void __wrap_free(void* p) {
  if (!p) return;
  if (track_remove(p, 0)) RAW_FREE(p);
#ifdef VF_SCHED
  else if (vf_track) vf_arena_free(p);
#endif
  else __real_free(p);
}
char* __wrap_strdup(const char* a) {
  size_t n = strlen(a) + 1;
  char* b = __wrap_malloc(n);
  if (b) memcpy(b, a, n);
  return b;
}
static void** mem_list;
static size_t mem_n, mem_cap;
void* vf_mem(size_t size) {
  void* p = __real_malloc(size);
  memset(p, 0xff, size);
  if (mem_n == mem_cap) { mem_cap = mem_cap ? 2 * mem_cap : 64; mem_list = __real_realloc(mem_list, mem_cap * sizeof(void*)); }
  mem_list[mem_n++] = p;
  return p;
}
double* vf_doubles(size_t n) { return vf_mem(n * sizeof(double)); }
uint32_t* vf_u32s(size_t n) { return vf_mem(n * 4); }
int vf_near(double a, double b, double t) {
  double m = fabs(b) > 1 ? fabs(b) : 1;
  return a == b || fabs(a - b) <= t * m;
}
int vf_close(double a, double b) { return vf_near(a, b, 1e-9); }

/* stdio */
int vf_io_track, vf_io_kind;
long vf_io_count, vf_io_fail_at;
char vf_io_failed[16];
static FILE* files[256];
static int file_n;
int vf_open_files(void) { return file_n; }
static int io_fails(const char* name) {
  if (!vf_io_track) return 0;
  vf_io_count++;
  if (vf_io_fail_at && vf_io_count == vf_io_fail_at) {
    snprintf(vf_io_failed, sizeof vf_io_failed, "%s", name);
    errno = EIO;
    return 1;
  }
  return 0;
}
extern FILE* __real_fopen(const char*, const char*);
extern int __real_fclose(FILE*);
extern size_t __real_fread(void*, size_t, size_t, FILE*);
extern size_t __real_fwrite(const void*, size_t, size_t, FILE*);
extern int __real_fseek(FILE*, long, int);
extern int __real_fflush(FILE*);
extern long __real_ftell(FILE*);
FILE* __wrap_fopen(const char* path, const char* mode) {
  char redirected[600];
  if (io_fails("fopen")) return 0;
  /* files of fixed places end up in the scratch directory */
  if (!strncmp(path, "/tmp/sp-plot", 12)) { snprintf(redirected, sizeof redirected, "%s/%s", scratch_dir, path + 5); path = redirected; }
  FILE* f = __real_fopen(path, mode);
  if (f && vf_io_track && file_n < 256) files[file_n++] = f;
  return f;
}
int __wrap_fclose(FILE* f) {
  int fails = io_fails("fclose");
  for (int i = 0; i < file_n; i++) if (files[i] == f) { files[i] = files[--file_n]; break; }
  int r = __real_fclose(f);
  if (fails) errno = EIO;
  return fails ? EOF : r;
}
size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f) {
  if (io_fails("fread")) return vf_io_kind && n > 1 ? __real_fread(p, size, n / 2, f) : 0;
  return __real_fread(p, size, n, f);
}
size_t __wrap_fwrite(const void* p, size_t size, size_t n, FILE* f) {
  if (io_fails("fwrite")) return vf_io_kind && n > 1 ? __real_fwrite(p, size, n / 2, f) : 0;
  return __real_fwrite(p, size, n, f);
}
int __wrap_fseek(FILE* f, long o, int w) { return io_fails("fseek") ? -1 : __real_fseek(f, o, w); }
int __wrap_fflush(FILE* f) { return io_fails("fflush") ? EOF : __real_fflush(f); }
long __wrap_ftell(FILE* f) { return io_fails("ftell") ? -1 : __real_ftell(f); }

/* commands are recorded instead of run */
char vf_system_command[1024];
int vf_system_count;
int __wrap_system(const char* command) {
  vf_system_count++;
  snprintf(vf_system_command, sizeof vf_system_command, "%s", command ? command : "");
  return 0;
}
/* exit of the code under test returns to the check if it asks for it */
#include <setjmp.h>
jmp_buf vf_exit_jump;
int vf_exit_trap, vf_exit_code;
extern void __real_exit(int);
void __wrap_exit(int code) {
  if (vf_exit_trap) { vf_exit_trap = 0; vf_exit_code = code; longjmp(vf_exit_jump, 1); }
  __real_exit(code);
}
static char scratch_path[8][512];
const char* vf_scratch(const char* name) {
  static int i;
  i = (i + 1) % 8;
  snprintf(scratch_path[i], sizeof scratch_path[i], "%s/%s", scratch_dir, name);
  return scratch_path[i];
}

static void reset_execution(void) {
  vf_track = 0; vf_io_track = 0;
  for (int i = 0; i < file_n; i++) __real_fclose(files[i]);
  file_n = 0;
  for (int i = 0; live && i < BUCKETS; i++)
    while (buckets[i]) {
      void* p = buckets[i]->p;
      track_remove(p, 0);
      RAW_FREE(p);
    }
  for (size_t i = 0; i < mem_n; i++) __real_free(mem_list[i]);
  mem_n = 0;
  vf_alloc_reset();
  vf_io_count = 0; vf_io_fail_at = 0; vf_io_kind = 0; vf_io_failed[0] = 0;
  vf_system_count = 0; vf_system_command[0] = 0;
}

static uint64_t hang_exec;
static int hang_ticks;
static void on_tick(int s) {
  (void)s;
  if (sh->execs == hang_exec) {
    if (++hang_ticks >= hang_limit) {
      static const char m[] = "execution does not terminate within the CPU limit\n";
      if (write(2, m, sizeof m - 1)) {}
      _exit(93);
    }
  } else { hang_exec = sh->execs; hang_ticks = 0; }
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

#ifdef VF_SCHED
void vf_sched_run(void (*f)(void));
#define RUN_BODY() vf_sched_run(vf_body)
#else
#define RUN_BODY() vf_body()
#endif

int main(int argc, char** argv) {
  const char* replay = 0;
  const char* shared_path = 0;
  for (int i = 1; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--shard")) sscanf(argv[i + 1], "%d/%d", &shard, &shards);
    else if (!strcmp(argv[i], "--split")) split_depth = atoi(argv[i + 1]);
    else if (!strcmp(argv[i], "--out")) out_path = argv[i + 1];
    else if (!strcmp(argv[i], "--shared")) shared_path = argv[i + 1];
    else if (!strcmp(argv[i], "--scratch")) scratch_dir = argv[i + 1];
    else if (!strcmp(argv[i], "--replay")) replay = argv[i + 1];
    else if (!strcmp(argv[i], "--tier")) thorough = !strcmp(argv[i + 1], "thorough");
    else if (!strcmp(argv[i], "--known")) known_keys = argv[i + 1];
    else if (!strcmp(argv[i], "--hang")) hang_limit = atoi(argv[i + 1]);
    else if (!strcmp(argv[i], "--wall")) wall_limit = atof(argv[i + 1]);
  }
  out = __real_fopen(out_path, "w");
  if (!out) return 94;
  int fd = open(shared_path, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd < 0 || ftruncate(fd, sizeof *sh)) return 94;
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (sh == MAP_FAILED) return 94;
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  signal(SIGVTALRM, on_tick);
  struct itimerval it = {{1, 0}, {1, 0}};
  setitimer(ITIMER_VIRTUAL, &it, 0);
  if (replay) {
    replaying = 1;
    while (*replay) { sh->ch[prefix_len++] = strtol(replay, (char**)&replay, 10); if (*replay == ',') replay++; }
  }
  vf_init();
  double start = now();
  uint64_t next_sample = 1;
  for (;;) {
    cur = 0; note_len = 0; trivial = 0; prefix_hash = 88172645463325252ull;
    own = -1;
    sh->depth = 0;
    reset_execution();
    int j = setjmp(end_of_execution);
    if (!j) RUN_BODY();
    sh->execs++;
    reset_execution();
    if (j != 2 && (replaying || own == 1 || (int)(prefix_hash % shards) == shard)) {
      n_exec++;
      if (!trivial) n_nontrivial++;
      if ((uint64_t)cur > max_depth) max_depth = cur;
      if (!trivial && n_nontrivial == next_sample) {
        next_sample = next_sample * 40 + 7;
        fprintf(out, "sample ");
        print_case(out);
        fflush(out);
      }
    }
    if (replaying) break;
    /* an execution cut at the split depth belongs to another shard: go on with the next prefix */
    int d = cur - 1;
    while (d >= 0 && sh->ch[d] + 1 >= sh->n[d]) d--;
    if (d < 0) break;
    sh->ch[d]++;
    prefix_len = d + 1;
    if (wall_limit && now() - start > wall_limit) { capped = 1; break; }
  }
  finish_output();
  return 0;
}
