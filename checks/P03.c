/* thread pool and futures under all schedules */
#include <sph-sp/sph-sp.h>
#include <errno.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
#include "common.h"
#include "vf_sched.h"
#define TASKS 310
static sph_thread_pool_t pool;
typedef struct { sph_thread_pool_task_t task; int id, runs, thread, child; int* payload; } job_t;
static job_t jobs[TASKS];
static int finished; /* the pool has been finished with waiting */
static int starts; /* tasks started */
static void job_run(sph_thread_pool_task_t* t) {
  job_t* a = (job_t*)((char*)t - offsetof(job_t, task));
  VF(a->id >= 0 && a->id < TASKS && a == jobs + a->id, "wrong_task", "a function is called with something that is not its task");
  VF(t->data == a->payload, "task_data", "task %d has other data", a->id);
  VF(!finished, "after_finish", "task %d runs after the pool was finished", a->id);
  a->runs++;
  starts++;
  a->thread = vf_thread_self();
  VF(a->thread > 0, "thread", "task %d runs in the calling thread", a->id);
  VF(a->runs == 1, "twice", "task %d runs %d times", a->id, a->runs);
  vf_sched_point();
  *a->payload += 10;
  if (a->child) sph_thread_pool_enqueue(&pool, &jobs[a->child].task);
}
static void job_new(int id, int child) {
  job_t* a = jobs + id;
  memset(a, 0, sizeof *a);
  a->id = id; a->child = child;
  a->payload = malloc(sizeof(int));
  *a->payload = id;
  a->task.f = job_run;
  a->task.data = a->payload;
}
static void pool_scenario(int workers, int tasks, int nested, int how) {
  static const char* names[] = {"waiting", "without waiting, then waiting", "discarding the queue", "out of memory, then again", "out of memory without waiting, then again", "without waiting only", "discarding without waiting, then waiting"};
  long live = vf_live();
  vf_note("%d workers, %d tasks, nested %d, finish %s", workers, tasks, nested, names[how]);
  for (int i = 0; i < tasks + nested; i++) job_new(i, 0);
  if (nested) jobs[0].child = tasks;
  finished = 0; starts = 0;
  int e = sph_thread_pool_new(workers, &pool), discard = how == 2 || how == 6;
  VF(!e, "pool_new", "sph_thread_pool_new returned %d", e);
  VF(pool.size == workers && vf_thread_max() == workers, "workers", "%d workers, %d threads instead of %d", pool.size, vf_thread_max(), workers);
  for (int i = 0; i < tasks; i++) sph_thread_pool_enqueue(&pool, &jobs[i].task);
  if (how == 1) {
    e = sph_thread_pool_finish(&pool, 1, 0);
    VF(!e, "finish", "sph_thread_pool_finish returned %d", e);
  }
  if (how == 5) {
    /* the threads end by themselves */
    e = sph_thread_pool_finish(&pool, 1, 0);
    for (int i = 0; i < workers; i++) pthread_join(pool.threads[i], 0);
    VF(!pool.queue.size, "queue_left", "%d tasks are left in the queue after all threads have ended", (int)pool.queue.size);
    sph_thread_pool_destroy(&pool);
  } else if (how == 6) {
    e = sph_thread_pool_finish(&pool, 1, 1);
    VF(!e, "finish", "sph_thread_pool_finish returned %d", e);
    int before = starts;
    e = sph_thread_pool_finish(&pool, 0, 0);
    VF(starts - before <= workers, "discard", "%d tasks are started by %d workers after the queue was discarded", starts - before, workers);
  } else if (how > 2) {
    int k = vf_choose(workers, "failing allocation");
    vf_alloc_reset();
    vf_fail_at = k + 1;
    e = sph_thread_pool_finish(&pool, how == 4, 0);
    int failed = vf_fail_count > 0;
    vf_alloc_reset();
    if (failed) VF(e, "out_of_memory", "sph_thread_pool_finish returned 0 although memory allocation failed");
    if (!failed && how == 3) how = 7;
  }
  if (how < 5) e = sph_thread_pool_finish(&pool, 0, how == 2);
  finished = 1;
  VF(!e, "finish", "sph_thread_pool_finish returned %d", e);
  VF(!vf_threads_running() && !vf_threads_unjoined(), "joined", "%d threads running and %d not joined after the pool was finished", vf_threads_running(), vf_threads_unjoined());
  VF(!vf_sync_objects_live(), "destroyed", "%d synchronisation objects not destroyed", vf_sync_objects_live());
  fp_reset();
  for (int i = 0; i < tasks; i++) {
    fp_int(jobs[i].runs);
    if (discard && !jobs[i].runs) continue;
    VF(jobs[i].runs == 1, "once", "task %d ran %d times", i, jobs[i].runs);
    VF(*jobs[i].payload == i + 10, "effect", "the effect of task %d is missing", i);
    fp_int(jobs[i].thread);
  }
  for (int i = 0; i < tasks + nested; i++) free(jobs[i].payload);
  VF(vf_live() == live, "leak", "%ld blocks of memory are left after finishing the pool", vf_live() - live);
  fp_int(workers); fp_done();
}
/* the function of a future: reads what the creator wrote, writes what the toucher reads */
typedef struct { int id, in, runs; double* out; } work_t;
static work_t work[TASKS];
static sph_future_t futures[TASKS];
static int nested_future, touch_inside;
static void* future_f(void* data) {
  work_t* a = data;
  VF(a >= work && a < work + TASKS && a->in == a->id * 7 + 1, "future_data", "a future function is called with other data");
  a->runs++;
  VF(a->runs == 1, "twice", "future %d runs %d times", a->id, a->runs);
  vf_sched_point();
  extern void __tsan_write8(void*);
  __tsan_write8(a->out);
  *a->out = a->id + 0.5;
  if (nested_future && a->id == 0) {
    work_t* b = work + nested_future;
    b->id = nested_future; b->in = b->id * 7 + 1; b->runs = 0;
    sph_future_new(future_f, b, futures + nested_future);
    if (touch_inside) {
      double* r = sph_future_touch(futures + nested_future);
      VF(r == b->out && b->runs == 1, "touch_inside", "touching a future inside a future returned before its function has finished");
    }
  }
  return a->out;
}
/* shutdown waits for futures nobody has touched, and can be repeated if it runs out of memory */
static double* inner_f(double* a) { vf_sched_point(); *a += 1; return a; }
static sph_future_t inner;
static void* outer_f(void* data) {
  double* a = data;
  double* r = sph_future_touch(&inner);
  VF(*r == 1, "touch_inside", "touching a future inside a future returned before its function has finished");
  *a = *r + 2;
  return a;
}
static void shutdown_scenario(int workers, int n, int touching, int fail) {
  static double a[TASKS], b;
  long live = vf_live();
  vf_note("%d workers, %d futures, %d touching, allocation %d of the shutdown fails", workers, n, touching, fail);
  memset(a, 0, sizeof a); b = 0;
  int e = sph_future_init(workers);
  VF(!e, "future_init", "sph_future_init returned %d", e);
  sph_future_new((sph_future_f_t)inner_f, &b, &inner);
  for (int i = 0; i < n; i++) sph_future_new(i < touching ? outer_f : (sph_future_f_t)inner_f, a + i, futures + i);
  vf_alloc_reset();
  vf_fail_at = fail;
  sph_future_deinit();
  int failed = vf_fail_count > 0;
  vf_alloc_reset();
  if (failed) sph_future_deinit();
  VF(!vf_threads_running() && !vf_threads_unjoined(), "joined", "%d threads running and %d not joined after shutdown", vf_threads_running(), vf_threads_unjoined());
  VF(!vf_sync_objects_live(), "destroyed", "%d synchronisation objects not destroyed", vf_sync_objects_live());
  VF(vf_live() == live, "leak", "%ld blocks of memory are left", vf_live() - live);
  VF(inner.finished && b == 1, "unfinished", "shutdown returned before an active future has finished");
  for (int i = 0; i < n; i++) VF(futures[i].finished && a[i] == (i < touching ? 3 : 1), "unfinished", "shutdown returned before active future %d has finished", i);
  VF(!sph_future_init(1), "init_again", "initialising after shutdown fails");
  VF(vf_threads_running() == 1, "init_again", "%d threads after initialising again with one", vf_threads_running());
  sph_future_deinit();
  fp_reset(); fp_int(workers); fp_int(n); fp_int(failed); fp_done();
}
static void future_scenario(int workers, int n, int nested, int order) {
  double values[TASKS];
  long live = vf_live();
  vf_note("%d workers, %d futures, nested %d, touch order %d", workers, n, nested, order);
  memset(work, 0, sizeof work);
  nested_future = nested ? n : 0; touch_inside = nested == 2; nested = nested > 0;
  int e = sph_future_init(workers);
  VF(!e, "future_init", "sph_future_init returned %d", e);
  VF(!sph_future_init(workers + 1) && vf_thread_max() == workers, "init_again", "initialising again does not keep the pool");
  for (int i = 0; i < n + nested; i++) { work[i].id = i; work[i].in = i * 7 + 1; work[i].out = values + i; values[i] = 0; }
  for (int i = 0; i < n; i++) {
    extern void __tsan_write8(void*);
    __tsan_write8(values + i);
    sph_future_new(future_f, work + i, futures + i);
  }
  fp_reset();
  for (int k = 0; k < n; k++) {
    int i = order ? n - 1 - k : k;
    double* r = sph_future_touch(futures + i);
    extern void __tsan_read8(void*);
    VF(r == values + i, "result", "the result of future %d is not what its function returned", i);
    __tsan_read8(r);
    VF(*r == i + 0.5 && work[i].runs == 1, "touch", "touching future %d returned before its function has finished", i);
    VF(sph_future_touch(futures + i) == r, "touch_again", "touching future %d again has another result", i);
    if (nested && i == 0) {
      r = sph_future_touch(futures + n);
      VF(r == values + n && work[n].runs == 1, "nested", "the future started inside a future has not finished");
    }
    fp_int(vf_threads_running());
  }
  sph_future_deinit();
  VF(!vf_threads_running() && !vf_threads_unjoined(), "joined", "%d threads running and %d not joined", vf_threads_running(), vf_threads_unjoined());
  VF(!vf_sync_objects_live(), "destroyed", "%d synchronisation objects not destroyed", vf_sync_objects_live());
  VF(vf_live() == live, "leak", "%ld blocks of memory are left", vf_live() - live);
  sph_future_deinit();
  fp_int(workers); fp_int(n); fp_done();
}
/* the queue against a list */
static void queue_scenario(void) {
  sph_queue_t q;
  sph_queue_node_t nodes[4];
  int order[64], head = 0, tail = 0, in[4] = {0};
  sph_queue_init(&q);
  for (int step = 0; step < vf_bound(7, 9); step++) {
    int op = vf_choose(5, "operation");
    if (op == 4) {
      if (head == tail) { vf_trivial(); return; }
      sph_queue_node_t* a = sph_queue_deq(&q);
      VF(a == nodes + order[head], "queue_order", "dequeue returns node %ld instead of %d", (long)(a - nodes), order[head]);
      in[order[head++]] = 0;
    } else {
      if (in[op]) { vf_trivial(); return; }
      sph_queue_enq(&q, nodes + op);
      in[op] = 1;
      order[tail++] = op;
    }
    VF(q.size == tail - head, "queue_size", "size is %d instead of %d", (int)q.size, tail - head);
    vf_op();
  }
  fp_reset(); for (int i = head; i < tail; i++) fp_int(order[i]); fp_done();
}
void vf_init(void) {}
static void limits(int size) {
  vf_preemptions = size < 3 ? vf_bound(3, 4) : vf_bound(2, 3) - (size > vf_bound(3, 4));
  vf_spurious = size < 5;
  vf_deviations = -1;
}
void vf_body(void) {
  int thorough = vf_thorough();
  vf_track = 1;
  switch (vf_choose(5, "part")) {
  case 3: {
    int workers = vf_range(1, 3, "workers"), n = vf_range(0, vf_bound(2, 3), "futures");
    limits(workers + n + 1);
    shutdown_scenario(workers, n, vf_range(0, n, "touching"), vf_range(0, workers, "failing allocation"));
    break;
  }
  case 2: {
    /* many */
    int workers = vf_range(1, 4, "workers"), n = (int[]){9, 40, 300}[vf_choose(3, "count")], kind = vf_choose(2, "futures");
    vf_horizon = 40000;
    vf_preemptions = 0; vf_spurious = 0;
    vf_deviations = n < 40;
    if (kind) future_scenario(workers, n, vf_choose(3, "nested"), vf_choose(2, "order"));
    else pool_scenario(workers, n, vf_choose(2, "nested"), vf_choose(3, "finish"));
    break;
  }
  case 0: {
    int workers = vf_range(1, 3, "workers"), tasks = vf_range(0, vf_bound(4, 5), "tasks");
    int nested = tasks ? vf_choose(2, "nested") : 0;
    limits(workers + tasks);
    pool_scenario(workers, tasks, nested, vf_choose(nested ? 5 : 7, "finish"));
    break;
  }
  case 1: {
    int workers = vf_range(1, 3, "workers"), n = vf_range(1, vf_bound(3, 4), "futures");
    limits(workers + n);
    future_scenario(workers, n, vf_choose(3, "nested"), n > 1 ? vf_choose(2, "order") : 0);
    break;
  }
  default: vf_track = 0; queue_scenario();
  }
}
