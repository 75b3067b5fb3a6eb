// Verification API shared by the symbolic engine (svsym) and the native replay build.
#ifndef VF_H
#define VF_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

void vf_sym(void *p, size_t n, const char *name);       // n arbitrary bytes
void vf_assume_(int c);
void vf_assert_(int c, const char *msg);
uint64_t vf_concretize(uint64_t v);                      // case-split over every feasible value
void vf_reach(const char *tag);                          // reachability witness
int vf_engine(void);
int vf_is_symbolic(uint64_t v);
int vf_maybe_true(uint64_t v);
size_t vf_obj_size(const void *p);
void vf_trace(const char *s, uint64_t v);
void vf_die(void);                                       // end of path

#define vf_assume(c) vf_assume_(!!(c))
// A limit of the harness or model, not of the code: the path ends there and the evidence counts it.
#define vf_bound(c, what) do { if (!(c)) { vf_reach("bound_exceeded"); vf_die(); } } while (0)
#define vf_assert(c, msg) vf_assert_(!!(c), msg)

uint8_t vf_u8(const char *name);
uint16_t vf_u16(const char *name);
uint32_t vf_u32(const char *name);
uint64_t vf_u64(const char *name);
unsigned vf_choice(const char *name, unsigned n);        // 0..n-1, case-split
unsigned vf_range(const char *name, unsigned lo, unsigned hi);

// Allocation with injected failures (budget = number of failures per path).
extern int vf_alloc_fail_budget;
extern int vf_alloc_failed;
extern long vf_live_blocks;
void *vf_malloc(size_t n);
void *vf_calloc(size_t a, size_t b);
void *vf_realloc(void *p, size_t n);
void vf_free(void *p);
char *vf_strdup(const char *s);

void *vf_memcpy_chk(void *d, const void *s, size_t n, size_t room);
void *vf_memset_chk(void *d, int c, size_t n, size_t room);
char *vf_strcpy_chk(char *d, const char *s, size_t room);
int vf_sprintf_n(char *d, size_t room, const char *fmt, const long *a);
int vf_printf_n(const char *fmt, const long *a);
int vf_sscanf_n(const char *s, const char *fmt, const long *a);

// Threads
long vf_thread_create(void *(*fn)(void *), void *arg);
void *vf_thread_join(long t);
void vf_mutex_lock(void *m);
void vf_mutex_unlock(void *m);
void vf_cond_wait(void *c, void *m);
int vf_cond_timedwait(void *c, void *m);                  // 0: timed out
void vf_wait_idle(void);                                  // until no other thread can run
void vf_cond_signal(void *c);
void vf_yield(void);
long vf_thread_self(void);
#endif
