/* start and shutdown histories with failing thread creations and allocations */
#include <sph-sp/sph-sp.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
#include <errno.h>
#include "common.h"
#include "vf_sched.h"
typedef struct { int in, out; } work_t;
static void* work_f(void* data) { work_t* a = data; a->out = a->in + 1; return a; }
static void use(int workers) {
  sph_future_t f[2];
  work_t w[2] = {{3, 0}, {8, 0}};
  for (int i = 0; i < 2; i++) sph_future_new(work_f, w + i, f + i);
  for (int i = 0; i < 2; i++) {
    work_t* r = sph_future_touch(f + i);
    VF(r == w + i && r->out == r->in + 1, "usable", "a future does not deliver its result after initialisation");
  }
}
static void nothing_left(long live, const char* when) {
  VF(!vf_threads_running() && !vf_threads_unjoined(), "threads_left", "%s: %d threads are running, %d are not joined", when, vf_threads_running(), vf_threads_unjoined());
  VF(!vf_sync_objects_live(), "sync_left", "%s: %d synchronisation objects are not destroyed", when, vf_sync_objects_live());
  VF(vf_live() == live, "memory_left", "%s: %ld blocks of memory are left", when, vf_live() - live);
}
static void tables(unsigned rate) {
  for (int t = 0; t < 2; t++) {
    unsigned n = t ? 100 * rate : rate;
    double* a = t ? sp_sine_table_lfo : sp_sine_table;
    VF(a, "table", "no sine table");
    for (unsigned i = 0; i < n; i++) VF(fabs(a[i] - sin(i * (2 * M_PI / n))) < 1e-9, "table", "sine table %d: index %u of %u is %g", t, i, n, a[i]);
    extern void __tsan_read8(void*);
    __tsan_read8(a + n - 1);
  }
}
void vf_init(void) {}
/* library start and shutdown */
static void library(int rounds) {
  static const unsigned rates[] = {8, 5, 6007};
  long live = vf_live();
  int failed_once = 0;
  fp_reset();
  for (int r = 0; r < rounds; r++) {
    int cpu = vf_range(0, r ? 2 : 3, "cpu count"), channels = (int[]){1, 2, sp_channel_count_limit}[vf_choose(r || cpu ? 2 : 3, "channels")];
    unsigned rate = rates[vf_choose(r || cpu ? 2 : 3, "rate")];
    int fault = failed_once ? 0 : vf_choose(1 + cpu + 3, "fault");
    vf_note(" initialize %d %d %u fault %d", cpu, channels, rate, fault);
    vf_create_fail_at = fault && fault <= cpu ? vf_create_count + fault : 0;
    vf_fail_at = fault > cpu ? vf_alloc_count + fault - cpu : 0;
    int threads = vf_thread_max();
    status_t s = sp_initialize(cpu, channels, rate);
    if (fault && !vf_fail_count && fault > cpu) {
      /* fewer allocations than the number of the failing one */
      vf_fail_at = 0; fault = 0;
    }
    vf_create_fail_at = 0; vf_fail_at = 0;
    vf_fail_count = 0;
    fp_int(s.id); fp_int(cpu); fp_int(fault);
    if (fault) {
      failed_once = 1;
      VF(s.id, "no_failure", "initialisation succeeds although %s failed", fault <= cpu ? "a thread creation" : "an allocation");
      sp_deinitialize();
      nothing_left(live, "after a failed initialisation");
    } else {
      VF(!s.id, "failure", "sp_initialize returned status %d", s.id);
      VF(sp_rate == rate && sp_channel_count == channels && sp_cpu_count == cpu, "settings", "rate %u, channel count %d, cpu count %d", sp_rate, sp_channel_count, sp_cpu_count);
      VF(vf_thread_max() - threads == cpu, "workers", "%d threads instead of %d", vf_thread_max() - threads, cpu);
      tables(rate);
      if (cpu) use(cpu);
      sp_deinitialize();
      nothing_left(live, "after deinitialisation");
      if (vf_choose(2, "deinitialize again")) { sp_deinitialize(); nothing_left(live, "after deinitialising again"); }
    }
  }
  fp_done();
}
/* futures and pools on their own */
static void pools(void) {
  long live = vf_live();
  sph_thread_pool_t* pool = malloc(sizeof *pool);
  int size = vf_range(1, 4, "size"), fail = vf_range(0, size, "failing thread creation");
  int kind = vf_choose(2, "kind");
  vf_note(" %s of size %d, thread creation %d fails", kind ? "pool" : "futures", size, fail);
  vf_create_fail_at = fail;
  int e = kind ? sph_thread_pool_new(size, pool) : sph_future_init(size);
  if (fail) {
    VF(e, "no_failure", "creation of the pool succeeds although the creation of a thread failed");
    VF(e == EAGAIN, "error_code", "creation of the pool returned %d instead of the error of the failed thread creation", e);
    if (!kind) sph_future_deinit();
  } else {
    VF(!e, "failure", "creation of the pool returned %d", e);
    VF(vf_thread_max() == size, "workers", "%d threads instead of %d", vf_thread_max(), size);
    if (!kind) { use(size); sph_future_deinit(); }
    else { e = sph_thread_pool_finish(pool, 0, 0); VF(!e, "finish", "sph_thread_pool_finish returned %d", e); }
  }
  nothing_left(live + 1, "after finishing the pool");
  if (!kind) {
    vf_create_fail_at = 0;
    VF(!sph_future_init(2), "init_again", "initialising again fails");
    use(2);
    sph_future_deinit();
    nothing_left(live + 1, "after finishing the second pool");
  }
  fp_reset(); fp_int(size); fp_int(fail); fp_int(kind); fp_int(e); fp_done();
}
static void limit(void) {
  static const int sizes[] = {127, 128, 129, 200, 1000};
  long live = vf_live();
  int n = sizes[vf_choose(LEN(sizes), "cpu count")];
  vf_preemptions = 0;
  vf_quiet = 1;
  if (vf_choose(2, "kind")) {
    status_t s = sp_initialize(n, 1, 5);
    VF(!s.id && vf_thread_max() == (n < 128 ? n : 128), "limit", "status %d with %d threads for a cpu count of %d", s.id, vf_thread_max(), n);
    use(n);
    sp_deinitialize();
  } else {
    if (n > 255) { vf_trivial(); return; }
    int e = sph_future_init(n);
    VF(!e == (n <= 128), "limit", "pool of size %d: %d", n, e);
    if (!e) sph_future_deinit();
    else VF(!vf_thread_max(), "limit", "threads were started for a pool that is too large");
  }
  nothing_left(live, "after finishing");
}
void vf_body(void) {
  vf_track = 1;
  vf_horizon = 100000;
  switch (vf_choose(3, "part")) {
  case 0: {
    int rounds = vf_range(1, vf_bound(2, 3), "rounds");
    vf_preemptions = rounds == 1 ? vf_bound(1, 2) : 0;
    vf_deviations = rounds == 1 ? vf_bound(3, -1) : vf_bound(1, 3);
    library(rounds);
    break;
  }
  case 1: vf_preemptions = vf_bound(0, 1); pools(); break;
  default: limit();
  }
}
