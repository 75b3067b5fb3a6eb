// Native confirmation of a data race: the harness with the recorded inputs, real threads and ThreadSanitizer.
// The schedule is not followed; argv[2] seeds small random delays.
#include "vf.h"
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static struct { char name[64]; unsigned char v[64]; size_t n; int used; } rec[200000];
static int nrec;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static unsigned seed;
static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void pause_(void) {
  static __thread unsigned x;
  if (!x) x = seed * 2654435761u + 12345u;
  x = x * 1103515245u + 12345u;
  if (seed && (x >> 16) % 3 == 0) usleep((x >> 20) % 300);
}
__attribute__((no_sanitize("thread"))) void vf_sym(void *p, size_t n, const char *name) {
  pthread_mutex_lock(&big);
  memset(p, 0, n);
  for (int i = 0; i < nrec; i++)
    if (!rec[i].used && rec[i].n == n && !strcmp(rec[i].name, name)) { rec[i].used = 1; memcpy(p, rec[i].v, n); break; }
  pthread_mutex_unlock(&big);
}
void vf_assume_(int c) { if (!c) _Exit(78); }
void vf_assert_(int c, const char *m) { (void)m; if (!c) _Exit(77); }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_reach(const char *t) { (void)t; }
int vf_engine(void) { return 0; }
int vf_is_symbolic(uint64_t v) { (void)v; return 0; }
int vf_maybe_true(uint64_t v) { return v != 0; }
size_t vf_obj_size(const void *p) { (void)p; return (size_t)1 << 30; }
void vf_trace(const char *s, uint64_t v) { (void)s; (void)v; }
void vf_die(void) { _Exit(0); }
static pthread_t th[16];
static int nth = 1;
static struct { void *p; pthread_mutex_t m; } mx[64];
static struct { void *p; pthread_cond_t c; } cv[64];
static pthread_mutex_t *M(void *p) {
  pthread_mutex_lock(&big);
  int i;
  for (i = 0; i < 63 && mx[i].p && mx[i].p != p; i++);
  if (!mx[i].p) { mx[i].p = p; pthread_mutex_init(&mx[i].m, NULL); }
  pthread_mutex_unlock(&big);
  return &mx[i].m;
}
static pthread_cond_t *C(void *p) {
  pthread_mutex_lock(&big);
  int i;
  for (i = 0; i < 63 && cv[i].p && cv[i].p != p; i++);
  if (!cv[i].p) { cv[i].p = p; pthread_cond_init(&cv[i].c, NULL); }
  pthread_mutex_unlock(&big);
  return &cv[i].c;
}
long vf_thread_create(void *(*fn)(void *), void *arg) { int t = nth++; pthread_create(&th[t], NULL, fn, arg); return t; }
void *vf_thread_join(long t) { void *r = NULL; pthread_join(th[t], &r); return r; }
void vf_mutex_lock(void *m) { pause_(); pthread_mutex_lock(M(m)); }
void vf_mutex_unlock(void *m) { pthread_mutex_unlock(M(m)); pause_(); }
void vf_cond_wait(void *c, void *m) { pthread_cond_wait(C(c), M(m)); }
int vf_cond_timedwait(void *c, void *m) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  ts.tv_nsec += 100000000;
  if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
  return pthread_cond_timedwait(C(c), M(m), &ts) == 0;
}
void vf_cond_signal(void *c) { pthread_cond_signal(C(c)); }
void vf_wait_idle(void) { usleep(20000); }
void vf_yield(void) { pause_(); }
long vf_thread_self(void) { return 0; }
void harness(void);
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : NULL;
  seed = argc > 2 ? (unsigned)atoi(argv[2]) : 0;
  static char hex[1 << 16];
  while (f && nrec < 200000 && fscanf(f, "%63s %zu %65535s", rec[nrec].name, &rec[nrec].n, hex) == 3) {
    if (rec[nrec].n > 64 || !strcmp(rec[nrec].name, "sched") || !strcmp(rec[nrec].name, "wake")) continue;
    for (size_t i = 0; i < rec[nrec].n; i++) rec[nrec].v[i] = (unsigned char)(hexd(hex[2 * i]) * 16 + hexd(hex[2 * i + 1]));
    nrec++;
  }
  alarm(20);
  harness();
  return 0;
}
