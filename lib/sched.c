#define _GNU_SOURCE
#include "mc.h"
#include "vf_sched.h"
#include <pthread.h>
#include <ucontext.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <semaphore.h>
#include <sys/mman.h>

extern void* __real_memset(void*, int, size_t);
extern void* __real_memcpy(void*, const void*, size_t);
extern void* __real_memmove(void*, const void*, size_t);
extern void* __real_malloc(size_t);
extern void* __real_calloc(size_t, size_t);
extern void* __real_realloc(void*, size_t);
extern char __start_vf_lib[] __attribute__((weak)), __stop_vf_lib[] __attribute__((weak));

#define MAXT 200
#define VCN 12 /* threads that take part in race detection */
#define STACK (256 * 1024)
enum { RUN, MUTEX, COND, JOIN, SLEEP, DONE, SEM };
typedef struct {
  int state;
  void* wait_on;
  int join_target;
  void* cond_mutex;
  uint64_t sleep_seen, sleep_start;
  int idle_wakes;
  uint64_t own;
  int joined, detached;
  void* (*f)(void*);
  void* arg;
  void* result;
  ucontext_t ctx;
  char* stack;
  uint32_t vc[VCN];
} thread_t;
static thread_t T[MAXT];
static char* stacks[MAXT];
static int nt, me, preempted, spurious_used, steps;
static uint64_t progress, sleeps;
int vf_preemptions = 2, vf_spurious = 0, vf_horizon = 4000, vf_create_fail_at, vf_create_count, vf_quiet, vf_deviations = -1;
static int deviated;
const char* vf_deadlock_key = "deadlock";
const char* (*vf_race_key)(uintptr_t);
static const char* race_key(uintptr_t a) { return vf_race_key ? vf_race_key(a) : "race"; }

/* synchronisation objects */
typedef struct { void* address; int kind, live, owner, used, is_static; uint32_t vc[VCN]; } sync_t; /* used: the count of semaphores, the state of once controls */
enum { K_MUTEX = 1, K_COND, K_ATOMIC, K_SEM, K_ONCE };
static sync_t S[4096];
static int ns;

/* arena: no reuse within an execution */
#define ARENA (64u << 20)
static char* arena;
static uint8_t* arena_state; /* 0 never allocated, 1 allocated, 2 freed */
static size_t arena_top;
typedef struct { size_t offset, size; } block_t;
static block_t* blocks;
static size_t nblocks, cblocks;

/* shadow words */
/* kinds of accesses: bit 0 write, bit 1 atomic */
typedef struct { uintptr_t word; uint32_t gen; uint32_t c[4][VCN]; uint8_t m[4][VCN]; } cell_t;
#define CELLS (1u << 20)
static cell_t* cells;
static uint32_t gen = 1;
static int tracked;

static void* snapshot;
static void join_vc(uint32_t* a, uint32_t* b) { for (int i = 0; i < VCN; i++) if (a[i] < b[i]) a[i] = b[i]; }
static void copy_vc(uint32_t* a, uint32_t* b) { for (int i = 0; i < VCN; i++) a[i] = b[i]; }
static void tick(void) { if (me < VCN) T[me].vc[me]++; }

void* vf_arena_alloc(size_t size) {
  size_t at = arena_top + 32;
  if (at + size + 32 > ARENA) return 0;
  at = (at + 15) & ~(size_t)15;
  __real_memset(arena_state + at, 1, size);
  arena_top = at + size;
  if (nblocks == cblocks) { cblocks = cblocks ? 2 * cblocks : 256; blocks = __real_realloc(blocks, cblocks * sizeof *blocks); }
  blocks[nblocks++] = (block_t){ at, size };
  return arena + at;
}
static void access_check(uintptr_t a, size_t n, int kind);
void vf_arena_free(void* p) {
  size_t at = (char*)p - arena;
  if ((char*)p < arena || at >= ARENA) vf_fail("memory", "free of an address that was not allocated");
  for (size_t i = nblocks; i--;) if (blocks[i].offset == at) {
    if (blocks[i].size && arena_state[at] == 2) vf_fail("memory", "double free");
    if (vf_track) access_check((uintptr_t)p, blocks[i].size, 1);
    __real_memset(arena_state + at, 2, blocks[i].size);
    return;
  }
  vf_fail("memory", "free of an address that was not allocated");
}

static cell_t* cell(uintptr_t word) {
  uint32_t i = (uint32_t)((word * 0x9e3779b97f4a7c15ull) >> 44) & (CELLS - 1);
  for (uint32_t k = 0; k < CELLS; k++, i = (i + 1) & (CELLS - 1)) {
    cell_t* c = cells + i;
    if (c->gen != gen) { __real_memset(c, 0, sizeof *c); c->gen = gen; c->word = word; return c; }
    if (c->word == word) return c;
  }
  return 0;
}
static void access_check(uintptr_t a, size_t n, int kind) {
  int write = kind & 1;
  if (!n) return;
  if (a >= (uintptr_t)arena && a < (uintptr_t)arena + ARENA) {
    size_t at = a - (uintptr_t)arena;
    for (size_t i = 0; i < n; i++) if (arena_state[at + i] != 1)
      vf_fail("memory", "%s of %s memory", write ? "write" : "read", arena_state[at + i] == 2 ? "freed" : "unallocated");
  } else if (a < 4096) vf_fail("memory", "null pointer access");
  if (!tracked || me >= VCN) return;
  uintptr_t end = a + n;
  for (uintptr_t w = a & ~(uintptr_t)7; w < end; w += 8) {
    unsigned mask = 0;
    for (int b = 0; b < 8; b++) if (w + b >= a && w + b < end) mask |= 1u << b;
    cell_t* c = cell(w);
    if (!c) return;
    for (int u = 0; u < VCN && u < nt; u++) {
      if (u == me) continue;
      for (int k = 0; k < 4; k++)
        if (((k | kind) & 1) && !(k & kind & 2) && c->c[k][u] > T[me].vc[u] && (c->m[k][u] & mask))
          vf_fail(race_key(w), "data race: %s%s and an earlier %s%s by another thread are not ordered", kind & 2 ? "atomic " : "", kind & 1 ? "write" : "read", k & 2 ? "atomic " : "", k & 1 ? "write" : "read");
    }
    uint32_t now = T[me].vc[me];
    c->m[kind][me] = c->c[kind][me] == now ? c->m[kind][me] | mask : mask;
    c->c[kind][me] = now;
  }
}

static sync_t* sync_find(void* a, int kind) {
  for (int i = ns; i--;) if (S[i].address == a && S[i].kind == kind) return S + i;
  return 0;
}
static sync_t* sync_new(void* a, int kind) {
  sync_t* s = sync_find(a, kind);
  if (!s) { if (ns >= 4096) vf_fail("harness", "too many synchronisation objects"); s = S + ns++; }
  __real_memset(s, 0, sizeof *s);
  s->address = a; s->kind = kind; s->live = 1; s->owner = -1;
  return s;
}
static sync_t* sync_get(void* a, int kind, size_t size) {
  sync_t* s = sync_find(a, kind);
  if (!s) {
    /* statically initialised objects are all zero */
    for (size_t i = 0; i < size; i++) if (((char*)a)[i]) vf_fail("sync", "use of an uninitialised synchronisation object");
    s = sync_new(a, kind);
    s->is_static = 1;
  }
  if (!s->live) vf_fail("sync", "use of a destroyed synchronisation object");
  return s;
}
int vf_sync_objects_live(void) { int n = 0; for (int i = 0; i < ns; i++) n += S[i].kind != K_ATOMIC && S[i].live && !S[i].is_static; return n; }
int vf_threads_unjoined(void) { int n = 0; for (int i = 1; i < nt; i++) n += !T[i].joined && !T[i].detached; return n; }
int vf_threads_running(void) { int n = 0; for (int i = 1; i < nt; i++) n += T[i].state != DONE; return n; }
int vf_thread_self(void) { return me; }
int vf_thread_max(void) { return nt - 1; }

static uint64_t others(int t) { return progress - T[t].own; }
static int enabled(int t) {
  switch (T[t].state) {
  case RUN: return 1;
  case MUTEX: { sync_t* s = sync_find(T[t].wait_on, K_MUTEX); return s->owner < 0; }
  case SEM: return sync_find(T[t].wait_on, K_SEM)->used > 0;
  case JOIN: return T[T[t].join_target].state == DONE;
  case SLEEP: return others(t) != T[t].sleep_seen;
  }
  return 0;
}
static void did(void) { progress++; T[me].own++; }
static void switch_to(int t) {
  int old = me;
  if (t == old) return;
  me = t;
  swapcontext(&T[old].ctx, &T[t].ctx);
}
static char* thread_states(void) {
  static char s[400];
  static const char* names[] = { "running", "mutex", "condition", "join", "sleeping", "done", "semaphore" };
  s[0] = 0;
  for (int i = 0; i < nt && strlen(s) < 350; i++) sprintf(s + strlen(s), " t%d:%s%s", i, names[T[i].state], i == me ? "*" : "");
  return s;
}
static void deadlock(void) { vf_fail(vf_deadlock_key, "no thread can make progress:%s", thread_states()); }
static void count_step(void) {
  vf_op();
  if (++steps > vf_horizon) vf_fail("livelock", "no termination within %d visible steps:%s", vf_horizon, thread_states());
}
/* threads to go on with. all sleeps take equally long: a sleep that ends while other threads could run or before that of
   a thread that sleeps for longer is an early wakeup, of which there is a bound. polling threads must not starve others */
static int early;
static int candidates(int without, int* list) {
  int n = 0, m;
  for (int i = 0; i < nt; i++) if (i != without && T[i].state != SLEEP && enabled(i)) list[n++] = i;
  m = n;
  for (int i = 0; i < nt; i++) if (i != without && T[i].state == SLEEP && enabled(i)) {
    int k = n++;
    for (; k > m && T[list[k - 1]].sleep_start > T[i].sleep_start; k--) list[k] = list[k - 1];
    list[k] = i;
  }
  return early < vf_preemptions ? n : m ? m : n > 1 ? 1 : n;
}
/* the thread to go on with when the running thread can not: free choices, or a bounded number of deviations from the first */
static int next_of(int* list, int n) {
  if (n == 1 || vf_quiet || (vf_deviations >= 0 && deviated >= vf_deviations)) return list[0];
  int c = vf_choose(n, "next");
  deviated += c > 0;
  if (c && T[list[c]].state == SLEEP) early++;
  return list[c];
}
/* before a visible operation of the running thread */
static void point(void) {
  int list[MAXT], n = 0;
  if (nt < 2) return;
  count_step();
  if (vf_quiet || preempted >= vf_preemptions) return;
  list[n++] = me;
  for (int i = 0; i < nt; i++) if (i != me && enabled(i)) list[n++] = i;
  if (n == 1) return;
  int c = vf_choose(n, "switch");
  if (c) { preempted++; switch_to(list[c]); }
}
void vf_sched_point(void) { point(); }
/* the running thread set its state to something that may not be enabled */
static void block(void) {
  while (!enabled(me)) {
    int list[MAXT], n;
    count_step();
    n = candidates(-1, list);
    if (!n) {
      /* time passes: sleeping threads wake up. twice without anything else happening means nothing ever will */
      for (int i = 0; i < nt; i++) if (T[i].state == SLEEP && T[i].idle_wakes < 2) list[n++] = i;
      if (!n) deadlock();
      int t = list[0];
      T[t].idle_wakes++;
      T[t].state = RUN;
      if (t == me) return;
      switch_to(t);
      continue;
    }
    switch_to(next_of(list, n));
  }
}
static void finish_thread(void* result) {
  T[me].result = result;
  T[me].state = DONE;
  did();
  block();
  abort();
}
static void trampoline(int t) {
  /* a new thread runs when first chosen */
  finish_thread(T[t].f(T[t].arg));
}

int __wrap_pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*f)(void*), void* arg) {
  point();
  vf_create_count++;
  if (vf_create_fail_at && vf_create_count == vf_create_fail_at) return EAGAIN;
  if (nt >= MAXT) vf_fail("harness", "too many threads");
  int t = nt++;
  __real_memset(T + t, 0, sizeof T[t]);
  T[t].f = f; T[t].arg = arg; T[t].state = RUN;
  int detached = 0;
  if (attr && !pthread_attr_getdetachstate(attr, &detached)) T[t].detached = detached == PTHREAD_CREATE_DETACHED;
  copy_vc(T[t].vc, T[me].vc);
  if (t < VCN) T[t].vc[t]++;
  tick();
  if (!stacks[t]) {
    stacks[t] = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(stacks[t], 4096, PROT_NONE);
  }
  getcontext(&T[t].ctx);
  T[t].ctx.uc_stack.ss_sp = stacks[t];
  T[t].ctx.uc_stack.ss_size = STACK;
  T[t].ctx.uc_link = 0;
  makecontext(&T[t].ctx, (void (*)(void))trampoline, 1, t);
  *out = (pthread_t)(0x7f000000 + t);
  tracked = 1;
  did();
  return 0;
}
int __wrap_pthread_join(pthread_t a, void** result) {
  point();
  long t = (long)a - 0x7f000000;
  if (t < 1 || t >= nt) vf_fail("sync", "join of something that is not a thread");
  if (T[t].joined) vf_fail("sync", "thread joined twice");
  if (T[t].detached) vf_fail("sync", "join of a detached thread");
  if (t == me) return EDEADLK;
  T[me].state = JOIN;
  T[me].join_target = t;
  block();
  T[me].state = RUN;
  T[t].joined = 1;
  join_vc(T[me].vc, T[t].vc);
  if (result) *result = T[t].result;
  did();
  return 0;
}
int __wrap_pthread_detach(pthread_t a) {
  long t = (long)a - 0x7f000000;
  if (t < 1 || t >= nt || T[t].joined) vf_fail("sync", "detach of something that is not a joinable thread");
  T[t].detached = 1;
  return 0;
}
pthread_t __wrap_pthread_self(void) { return (pthread_t)(0x7f000000 + me); }
void __wrap_pthread_exit(void* result) {
  point();
  finish_thread(result);
  abort();
}
int __wrap_pthread_mutex_init(pthread_mutex_t* a, const pthread_mutexattr_t* b) {
  sync_t* s = sync_find(a, K_MUTEX);
  if (s && s->live && s->owner >= 0) vf_fail("sync", "initialisation of a locked mutex");
  sync_new(a, K_MUTEX);
  return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t* a) {
  point();
  sync_t* s = sync_get(a, K_MUTEX, sizeof *a);
  if (s->owner >= 0) vf_fail("sync", "destruction of a locked mutex");
  for (int i = 0; i < nt; i++) if ((T[i].state == MUTEX && T[i].wait_on == a) || (T[i].state == COND && T[i].cond_mutex == a)) vf_fail("sync", "destruction of a mutex a thread waits for");
  s->live = 0;
  did();
  return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* a) {
  point();
  sync_t* s = sync_get(a, K_MUTEX, sizeof *a);
  if (s->owner == me) vf_fail("sync", "mutex locked twice by the same thread");
  T[me].state = MUTEX;
  T[me].wait_on = a;
  block();
  s = sync_get(a, K_MUTEX, sizeof *a);
  T[me].state = RUN;
  s->owner = me;
  join_vc(T[me].vc, s->vc);
  did();
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* a) {
  point();
  sync_t* s = sync_get(a, K_MUTEX, sizeof *a);
  if (s->owner >= 0) return EBUSY;
  s->owner = me;
  join_vc(T[me].vc, s->vc);
  did();
  return 0;
}
static void release(sync_t* s) {
  if (s->owner != me) vf_fail("sync", "unlock of a mutex the thread does not hold");
  s->owner = -1;
  copy_vc(s->vc, T[me].vc);
  tick();
  did();
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* a) {
  point();
  release(sync_get(a, K_MUTEX, sizeof *a));
  return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* a, const pthread_condattr_t* b) { sync_new(a, K_COND); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* a) {
  point();
  sync_t* s = sync_get(a, K_COND, sizeof *a);
  for (int i = 0; i < nt; i++) if (T[i].state == COND && T[i].wait_on == a) vf_fail("sync", "destruction of a condition a thread waits for");
  s->live = 0;
  did();
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* a, pthread_mutex_t* m) {
  point();
  sync_get(a, K_COND, sizeof *a);
  release(sync_get(m, K_MUTEX, sizeof *m));
  T[me].cond_mutex = m;
  if (!vf_quiet && spurious_used < vf_spurious && vf_choose(2, "spurious wakeup")) {
    spurious_used++;
    T[me].state = MUTEX;
    T[me].wait_on = m;
  } else {
    T[me].state = COND;
    T[me].wait_on = a;
  }
  block();
  sync_t* s = sync_get(m, K_MUTEX, sizeof *m);
  T[me].state = RUN;
  s->owner = me;
  join_vc(T[me].vc, s->vc);
  did();
  return 0;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* a, pthread_mutex_t* m, const struct timespec* t) {
  /* the time is over at once */
  point();
  release(sync_get(m, K_MUTEX, sizeof *m));
  T[me].state = SLEEP; T[me].sleep_seen = others(me); T[me].sleep_start = ++sleeps;
  block();
  T[me].state = MUTEX; T[me].wait_on = m;
  block();
  sync_t* s = sync_get(m, K_MUTEX, sizeof *m);
  T[me].state = RUN;
  s->owner = me;
  join_vc(T[me].vc, s->vc);
  return ETIMEDOUT;
}
static void wake(int t) { T[t].state = MUTEX; T[t].wait_on = T[t].cond_mutex; }
int __wrap_pthread_cond_signal(pthread_cond_t* a) {
  point();
  sync_get(a, K_COND, sizeof *a);
  int list[MAXT], n = 0;
  for (int i = 0; i < nt; i++) if (T[i].state == COND && T[i].wait_on == a) list[n++] = i;
  if (n) wake(list[n == 1 || vf_quiet ? 0 : vf_choose(n, "woken")]);
  did();
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* a) {
  point();
  sync_get(a, K_COND, sizeof *a);
  for (int i = 0; i < nt; i++) if (T[i].state == COND && T[i].wait_on == a) wake(i);
  did();
  return 0;
}
static sync_t* sem_get(sem_t* a) {
  sync_t* s = sync_find(a, K_SEM);
  if (!s || !s->live) vf_fail("sync", "use of a semaphore that is not initialised");
  return s;
}
int __wrap_sem_init(sem_t* a, int shared, unsigned n) { sync_new(a, K_SEM)->used = n; return 0; }
int __wrap_sem_destroy(sem_t* a) {
  point();
  for (int i = 0; i < nt; i++) if (T[i].state == SEM && T[i].wait_on == a) vf_fail("sync", "destruction of a semaphore a thread waits for");
  sem_get(a)->live = 0;
  did();
  return 0;
}
static void sem_take(sem_t* a) {
  sync_t* s = sem_get(a);
  s->used--;
  join_vc(T[me].vc, s->vc);
  did();
}
int __wrap_sem_wait(sem_t* a) {
  point();
  sem_get(a);
  T[me].state = SEM;
  T[me].wait_on = a;
  block();
  T[me].state = RUN;
  sem_take(a);
  return 0;
}
int __wrap_sem_trywait(sem_t* a) {
  point();
  if (sem_get(a)->used > 0) { sem_take(a); return 0; }
  errno = EAGAIN;
  return -1;
}
int __wrap_sem_post(sem_t* a) {
  point();
  sync_t* s = sem_get(a);
  s->used++;
  join_vc(s->vc, T[me].vc);
  tick();
  did();
  return 0;
}
int __wrap_sem_getvalue(sem_t* a, int* out) { point(); *out = sem_get(a)->used; return 0; }
static void do_sleep(void);
int __wrap_sem_timedwait(sem_t* a, const struct timespec* t) {
  if (!__wrap_sem_trywait(a)) return 0;
  do_sleep();
  if (!__wrap_sem_trywait(a)) return 0;
  errno = ETIMEDOUT;
  return -1;
}
int __wrap_pthread_once(pthread_once_t* a, void (*f)(void)) {
  point();
  sync_t* s = sync_find(a, K_ONCE);
  if (!s) {
    s = sync_new(a, K_ONCE);
    s->is_static = 1;
    f();
    s = sync_find(a, K_ONCE);
    copy_vc(s->vc, T[me].vc);
    tick();
    s->used = 1;
    did();
  }
  while (!s->used) { do_sleep(); s = sync_find(a, K_ONCE); }
  join_vc(T[me].vc, s->vc);
  return 0;
}
/* spin locks and locks for readers and writers are treated as mutexes */
static int lock_of(void* a, size_t size) {
  point();
  sync_t* s = sync_get(a, K_MUTEX, size);
  if (s->owner == me) vf_fail("sync", "locked twice by the same thread");
  T[me].state = MUTEX;
  T[me].wait_on = a;
  block();
  s = sync_get(a, K_MUTEX, size);
  T[me].state = RUN;
  s->owner = me;
  join_vc(T[me].vc, s->vc);
  did();
  return 0;
}
static int unlock_of(void* a, size_t size) { point(); release(sync_get(a, K_MUTEX, size)); return 0; }
int __wrap_pthread_spin_init(pthread_spinlock_t* a, int shared) { sync_new((void*)a, K_MUTEX); return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t* a) { point(); sync_get((void*)a, K_MUTEX, sizeof *a)->live = 0; did(); return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t* a) { return lock_of((void*)a, sizeof *a); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* a) { return unlock_of((void*)a, sizeof *a); }
int __wrap_pthread_rwlock_init(pthread_rwlock_t* a, const pthread_rwlockattr_t* b) { sync_new(a, K_MUTEX); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t* a) { point(); sync_get(a, K_MUTEX, sizeof *a)->live = 0; did(); return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* a) { return lock_of(a, sizeof *a); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* a) { return lock_of(a, sizeof *a); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* a) { return unlock_of(a, sizeof *a); }
static void do_sleep(void) {
  if (nt < 2) return;
  T[me].state = SLEEP;
  if (T[me].sleep_seen != others(me)) T[me].idle_wakes = 0;
  T[me].sleep_seen = others(me);
  T[me].sleep_start = ++sleeps;
  /* a sleeping thread gives way: the others go on first */
  count_step();
  int list[MAXT], n = candidates(me, list);
  if (n) switch_to(next_of(list, n));
  block();
  T[me].state = RUN;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { do_sleep(); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec* a, struct timespec* b) { do_sleep(); return 0; }
int __wrap_usleep(unsigned a) { do_sleep(); return 0; }
int __wrap_sched_yield(void) { do_sleep(); return 0; }
void* __wrap_memset(void* a, int v, size_t n) { if (vf_track) access_check((uintptr_t)a, n, 1); return __real_memset(a, v, n); }
void* __wrap_memcpy(void* a, const void* b, size_t n) {
  if (vf_track) { access_check((uintptr_t)b, n, 0); access_check((uintptr_t)a, n, 1); }
  return __real_memcpy(a, b, n);
}
void* __wrap_memmove(void* a, const void* b, size_t n) {
  if (vf_track) { access_check((uintptr_t)b, n, 0); access_check((uintptr_t)a, n, 1); }
  return __real_memmove(a, b, n);
}

/* instrumentation callbacks */
void __tsan_init(void) {}
void __tsan_func_entry(void* a) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void** a, void* b) {}
void __tsan_vptr_read(void** a) {}
#define RW(n) \
  void __tsan_read##n(void* a) { if (vf_track) access_check((uintptr_t)a, n, 0); } \
  void __tsan_write##n(void* a) { if (vf_track) access_check((uintptr_t)a, n, 1); } \
  void __tsan_unaligned_read##n(void* a) { if (vf_track) access_check((uintptr_t)a, n, 0); } \
  void __tsan_unaligned_write##n(void* a) { if (vf_track) access_check((uintptr_t)a, n, 1); } \
  void __tsan_volatile_read##n(void* a) { if (vf_track) access_check((uintptr_t)a, n, 0); } \
  void __tsan_volatile_write##n(void* a) { if (vf_track) access_check((uintptr_t)a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { if (vf_track) access_check((uintptr_t)a, n, 0); }
void __tsan_write_range(void* a, size_t n) { if (vf_track) access_check((uintptr_t)a, n, 1); }
static sync_t* atomic_sync(void* a) { sync_t* s = sync_find(a, K_ATOMIC); return s ? s : sync_new(a, K_ATOMIC); }
static void atomic_load_edge(void* a, int mo) {
  if (mo == 1 || mo == 2 || mo >= 4) join_vc(T[me].vc, atomic_sync(a)->vc);
}
static void atomic_store_edge(void* a, int mo) {
  if (mo >= 3) { join_vc(atomic_sync(a)->vc, T[me].vc); tick(); }
  did();
}
static void atomic_mem(void* a, size_t n, int write) {
  if (vf_track) access_check((uintptr_t)a, n, 2 + write);
}
#define AT(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type* a, int mo) { point(); atomic_mem((void*)a, sizeof *a, 0); atomic_load_edge((void*)a, mo); return *a; } \
  void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { point(); atomic_mem((void*)a, sizeof *a, 1); *a = v; atomic_store_edge((void*)a, mo); } \
  type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) { point(); atomic_mem((void*)a, sizeof *a, 1); type o = *a; *a = v; atomic_load_edge((void*)a, mo); atomic_store_edge((void*)a, mo); return o; } \
  type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo) { point(); atomic_mem((void*)a, sizeof *a, 1); type o = *a; *a = o + v; atomic_load_edge((void*)a, mo); atomic_store_edge((void*)a, mo); return o; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo) { point(); atomic_mem((void*)a, sizeof *a, 1); type o = *a; *a = o - v; atomic_load_edge((void*)a, mo); atomic_store_edge((void*)a, mo); return o; } \
  type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo) { point(); atomic_mem((void*)a, sizeof *a, 1); type o = *a; *a = o | v; atomic_load_edge((void*)a, mo); atomic_store_edge((void*)a, mo); return o; } \
  type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo) { point(); atomic_mem((void*)a, sizeof *a, 1); type o = *a; *a = o & v; atomic_load_edge((void*)a, mo); atomic_store_edge((void*)a, mo); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int fmo) { \
    point(); atomic_mem((void*)a, sizeof *a, 1); type o = *a; \
    if (o == *c) { *a = v; atomic_load_edge((void*)a, mo); atomic_store_edge((void*)a, mo); return 1; } \
    *c = o; atomic_load_edge((void*)a, fmo); return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, mo, fmo); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, mo, fmo); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { point(); }
void __tsan_atomic_signal_fence(int mo) {}

void vf_sched_run(void (*f)(void)) {
  if (!arena) {
    arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_state = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    cells = __real_calloc(CELLS, sizeof *cells);
    if (__start_vf_lib) {
      snapshot = __real_malloc(__stop_vf_lib - __start_vf_lib);
      __real_memcpy(snapshot, __start_vf_lib, __stop_vf_lib - __start_vf_lib);
    }
  }
  if (snapshot) __real_memcpy(__start_vf_lib, snapshot, __stop_vf_lib - __start_vf_lib);
  __real_memset(arena_state, 0, arena_top + 64);
  arena_top = 0; nblocks = 0;
  ns = 0; gen++; tracked = 0;
  nt = 1; me = 0; preempted = 0; spurious_used = 0; deviated = 0; early = 0; vf_deviations = -1; steps = 0; progress = 0;
  vf_create_fail_at = 0; vf_create_count = 0; vf_quiet = 0; vf_deadlock_key = "deadlock"; vf_race_key = 0;
  __real_memset(T, 0, sizeof T[0]);
  T[0].vc[0] = 1;
  f();
}
