// Model of the thread functions of GLib on top of the engine's threads.
#include <glib.h>
#include "vf.h"
#undef g_mutex_lock
int glib_thread_fails = 0;   // starting a thread may fail
void g_mutex_init(GMutex *m) { (void)m; }
void g_mutex_clear(GMutex *m) { (void)m; }
void g_mutex_lock(GMutex *m) { vf_mutex_lock(m); }
void g_mutex_unlock(GMutex *m) { vf_mutex_unlock(m); }
void g_cond_init(GCond *c) { (void)c; }
void g_cond_clear(GCond *c) { (void)c; }
void g_cond_wait(GCond *c, GMutex *m) { vf_cond_wait(c, m); }
gboolean g_cond_wait_until(GCond *c, GMutex *m, gint64 end) { (void)end; return vf_cond_timedwait(c, m); }
void g_cond_signal(GCond *c) { vf_cond_signal(c); }
void g_cond_broadcast(GCond *c) { for (int i = 0; i < 4; i++) vf_cond_signal(c); }
gint64 g_get_monotonic_time(void) { return 1000; }
static char th[16];
static GThread *start(GThreadFunc f, gpointer a) {
  long t = vf_thread_create((void *(*)(void *))f, a);
  vf_bound(t < 16, "threads");
  return (GThread *)(th + t);
}
GThread *g_thread_try_new(const gchar *n, GThreadFunc f, gpointer a, GError **e) {
  (void)n; (void)e;
  if (glib_thread_fails > 0 && vf_choice("thread_fails", 2)) { glib_thread_fails--; return NULL; }
  return start(f, a);
}
GThread *g_thread_new(const gchar *n, GThreadFunc f, gpointer a) { (void)n; return start(f, a); }
gpointer g_thread_join(GThread *t) { return vf_thread_join((char *)t - th); }
void g_thread_unref(GThread *t) { (void)t; }
gpointer g_malloc(gsize n) { return vf_malloc(n); }
gpointer g_malloc0(gsize n) { return vf_calloc(1, n); }
void g_free(gpointer p) { vf_free(p); }
