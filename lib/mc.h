/* exhaustive choice-sequence explorer for the real code.
   a check defines vf_body(); every call of vf_choose is a branching point and the runtime executes vf_body once for
   every sequence of choices (depth first, stateless), each time on the real implementation. */
#ifndef vf_mc_h
#define vf_mc_h
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
/* provided by the check */
void vf_body(void);
void vf_init(void);
extern const char* vf_known_keys;
/* exploration */
int vf_choose(int n, const char* label);
int vf_range(int lo, int hi, const char* label);
int vf_thorough(void);
#define vf_bound(quick, thorough) (vf_thorough() ? (thorough) : (quick))
void vf_op(void);
void vf_trivial(void);
void vf_skip(void) __attribute__((noreturn));
void vf_note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void vf_state(const void* a, size_t size);
void vf_state_u64(uint64_t a);
void vf_fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define VF(cond, key, ...) \
  do { \
    if (!(cond)) vf_fail(key, __VA_ARGS__); \
  } while (0)
/* memory of a check: exact size, guarded, released after each execution */
void* vf_mem(size_t size);
double* vf_doubles(size_t n);
uint32_t* vf_u32s(size_t n);
/* floating point comparison; NaN never matches */
int vf_close(double a, double b);
int vf_near(double a, double b, double tolerance);
/* allocation environment of the code under test */
extern int vf_track; /* allocations made while nonzero are counted */
extern long vf_alloc_count;
extern long vf_fail_at; /* number of the allocation that fails, counted from 1. 0 for none */
extern long vf_fail_count; /* injected failures so far */
extern int vf_fail_sticky; /* all later allocations fail too */
long vf_live(void); /* tracked blocks not yet freed */
long vf_live_since(long mark);
long vf_mark(void);
void vf_alloc_reset(void);
/* stdio environment */
extern int vf_io_track;
extern long vf_io_count;
extern long vf_io_fail_at; /* number of the stdio call that fails, counted from 1 */
extern int vf_io_kind; /* 0: fails at once. 1: half of the items transferred */
extern char vf_io_failed[16]; /* name of the call that failed */
int vf_open_files(void);
/* system(): recorded, never run */
extern char vf_system_command[1024];
extern int vf_system_count;
/* a file name in the scratch directory of this process */
const char* vf_scratch(const char* name);
#endif
