// Native replay runtime: feeds the counterexample recorded by the engine to the same harness.
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>

static FILE *in;
static int hexd(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static int nextRec(const char *name, unsigned char *buf, size_t n) {
  char nm[256];
  size_t k;
  static char hex[1 << 20];
  if (!in) return 0;
  if (fscanf(in, "%255s %zu %1048575s", nm, &k, hex) != 3) {
    memset(buf, 0, n);  // beyond the recorded counterexample
    return 0;
  }
  if (strcmp(nm, name) || k != n) {
    printf("REPLAY-DIVERGED: wanted %s/%zu, recorded %s/%zu\n", name, n, nm, k);
    exit(79);
  }
  for (size_t i = 0; i < n; i++) buf[i] = (unsigned char)(hexd(hex[2 * i]) * 16 + hexd(hex[2 * i + 1]));
  return 1;
}
void vf_sym(void *p, size_t n, const char *name) { nextRec(name, p, n); }
void vf_assume_(int c) { if (!c) { printf("REPLAY-ASSUME-FAILED\n"); exit(78); } }
void vf_assert_(int c, const char *m) {
  if (!c) { printf("REPLAY-ASSERT-FAILED: %s\n", m); fflush(stdout); _Exit(77); }
}
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_reach(const char *t) { (void)t; }
int vf_engine(void) { return 0; }
int vf_is_symbolic(uint64_t v) { (void)v; return 0; }
int vf_maybe_true(uint64_t v) { return v != 0; }
size_t vf_obj_size(const void *p) { (void)p; return (size_t)1 << 30; }
void vf_trace(const char *s, uint64_t v) { printf("trace %s %lld\n", s, (long long)v); }
void vf_die(void) { printf("REPLAY-END\n"); fflush(stdout); _Exit(0); }

// Cooperative threads, following the recorded schedule.
#define MAXT 8
enum { T_RUN, T_LOCK, T_COND, T_JOIN, T_DONE, T_TIMED, T_IDLE };
static struct { ucontext_t c; int st; void *on; void *ret; void *(*fn)(void *); void *arg; char *stk; } T[MAXT];
static int nt = 1, cur = 0;
static struct { void *m; int owner; } MX[256];
static int nmx;
static int *owner(void *m) {
  for (int i = 0; i < nmx; i++) if (MX[i].m == m) return &MX[i].owner;
  MX[nmx].m = m; MX[nmx].owner = -1;
  return &MX[nmx++].owner;
}
static int runnable(int t) {
  if (T[t].st == T_RUN) return 1;
  if (T[t].st == T_LOCK) return *owner(T[t].on) < 0;
  if (T[t].st == T_JOIN) return T[(long)T[t].on].st == T_DONE;
  if (T[t].st == T_TIMED) return 1;
  if (T[t].st == T_IDLE) {
    for (int k = 0; k < nt; k++) if (T[k].st != T_IDLE && runnable(k)) return 0;
    return 1;
  }
  return 0;
}
void __sanitizer_start_switch_fiber(void **, const void *, size_t);
void __sanitizer_finish_switch_fiber(void *, const void **, size_t *);
static const void *mainstk;
static size_t mainsize;
static void sched(void) {
  int any = 0;
  for (int t = 0; t < nt; t++) any |= runnable(t);
  if (!any) { printf("REPLAY-ASSERT-FAILED: deadlock\n"); fflush(stdout); _Exit(77); }
  unsigned char b = 0;
  int t = nextRec("sched", &b, 1) ? b : (runnable(cur) ? cur : -1);
  if (t < 0 || t >= nt || !(runnable(t) || T[t].st == T_COND /* spurious wakeup */)) { for (t = 0; t < nt && !runnable(t); t++); }
  if (t != cur) {
    int o = cur;
    cur = t;
    void *fake = NULL;
    __sanitizer_start_switch_fiber(&fake, T[t].stk ? T[t].stk : mainstk, T[t].stk ? 1 << 20 : mainsize);
    swapcontext(&T[o].c, &T[t].c);
    const void *b; size_t n;
    __sanitizer_finish_switch_fiber(fake, &b, &n);
  }
}
static int alive(void) { int n = 0; for (int t = 0; t < nt; t++) n += T[t].st != T_DONE; return n; }
static void tramp(void) {
  const void *b; size_t n;
  __sanitizer_finish_switch_fiber(NULL, &b, &n);
  if (!mainstk) { mainstk = b; mainsize = n; }
  T[cur].ret = T[cur].fn(T[cur].arg);
  T[cur].st = T_DONE;
  sched();
  abort();
}
long vf_thread_create(void *(*fn)(void *), void *arg) {
  int t = nt++;
  T[t].fn = fn; T[t].arg = arg; T[t].st = T_RUN;
  T[t].stk = malloc(1 << 20);
  getcontext(&T[t].c);
  T[t].c.uc_stack.ss_sp = T[t].stk;
  T[t].c.uc_stack.ss_size = 1 << 20;
  makecontext(&T[t].c, tramp, 0);
  return t;
}
void vf_mutex_lock(void *m) {
  if (alive() > 1) sched();
  while (*owner(m) >= 0) {
    if (*owner(m) == cur) { printf("REPLAY-ASSERT-FAILED: deadlock\n"); fflush(stdout); _Exit(77); }
    T[cur].st = T_LOCK; T[cur].on = m; sched();
  }
  T[cur].st = T_RUN;
  *owner(m) = cur;
}
void vf_mutex_unlock(void *m) {
  if (*owner(m) != cur) { printf("REPLAY-ASSERT-FAILED: unlock not held\n"); fflush(stdout); _Exit(77); }
  *owner(m) = -1;
}
void vf_cond_wait(void *c, void *m) {
  *owner(m) = -1;
  T[cur].st = T_COND; T[cur].on = c;
  sched();
  while (*owner(m) >= 0) { T[cur].st = T_LOCK; T[cur].on = m; sched(); }
  T[cur].st = T_RUN;
  *owner(m) = cur;
}
int vf_cond_timedwait(void *c, void *m) {
  *owner(m) = -1;
  T[cur].st = T_TIMED; T[cur].on = c;
  sched();
  int timeout = T[cur].st == T_TIMED;
  while (*owner(m) >= 0) { T[cur].st = T_LOCK; T[cur].on = m; sched(); }
  T[cur].st = T_RUN;
  *owner(m) = cur;
  return !timeout;
}
void vf_wait_idle(void) { T[cur].st = T_IDLE; sched(); T[cur].st = T_RUN; }
#define WAITS(t, c) ((T[t].st == T_COND || T[t].st == T_TIMED) && T[t].on == (c))
void vf_cond_signal(void *c) {
  int any = 0;
  for (int t = 0; t < nt; t++) any |= WAITS(t, c);
  if (!any) return;
  unsigned char b = 0;
  int t = nextRec("wake", &b, 1) ? b : -1;
  if (t < 0 || !WAITS(t, c)) for (t = 0; !WAITS(t, c); t++);
  T[t].st = T_RUN;  // will loop on the mutex in vf_cond_wait
}
void *vf_thread_join(long t) {
  if (alive() > 1) sched();
  while (T[t].st != T_DONE) { T[cur].st = T_JOIN; T[cur].on = (void *)t; sched(); }
  T[cur].st = T_RUN;
  return T[t].ret;
}
void vf_yield(void) { if (alive() > 1) sched(); }
long vf_thread_self(void) { return cur; }

void harness(void);
int main(int argc, char **argv) {
  setvbuf(stdout, NULL, _IONBF, 0);
  if (argc > 1) in = fopen(argv[1], "r");
  harness();
  printf("REPLAY-END\n");
  return 0;
}
