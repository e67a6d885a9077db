/* controlled scheduler: the code under test is compiled with thread sanitizer instrumentation, whose callbacks are
   implemented in sched.c, and its pthread and sleep calls are redirected there. threads are fibers, exactly one runs,
   and every switch is a vf_choose. data races, use of freed memory, deadlock and misuse of synchronisation objects are
   violations. */
#ifndef vf_sched_h
#define vf_sched_h
extern int vf_preemptions; /* preemption bound. set it before threads start */
extern int vf_deviations; /* bound on continuing with another than the first enabled thread when the running thread blocks. -1: none */
extern int vf_spurious; /* bound on spurious condition wakeups */
extern int vf_horizon; /* visible steps per execution */
extern int vf_create_fail_at; /* number of the pthread_create that fails, counted from 1 */
extern int vf_create_count;
extern const char* vf_deadlock_key;
extern const char* (*vf_race_key)(uintptr_t); /* key of the violation for a race at an address */
extern int vf_quiet; /* nonzero: no switching (deterministic prefix or suffix of a scenario) */
int vf_threads_unjoined(void);
int vf_threads_running(void);
int vf_thread_self(void);
int vf_thread_max(void); /* number of threads ever created besides the first */
int vf_sync_objects_live(void);
void vf_sched_point(void); /* a visible step of the check itself */
#endif
