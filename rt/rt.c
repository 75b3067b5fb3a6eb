// Runtime shared by the symbolic and native builds.
#include "vf.h"
#include <stdlib.h>
#include <string.h>

uint8_t vf_u8(const char *n) { uint8_t v; vf_sym(&v, 1, n); return v; }
uint16_t vf_u16(const char *n) { uint16_t v; vf_sym(&v, 2, n); return v; }
uint32_t vf_u32(const char *n) { uint32_t v; vf_sym(&v, 4, n); return v; }
uint64_t vf_u64(const char *n) { uint64_t v; vf_sym(&v, 8, n); return v; }
unsigned vf_choice(const char *name, unsigned n) {
  if (n <= 1) return 0;
  uint8_t v;
  vf_sym(&v, 1, name);
  vf_assume(v < n);
  return (unsigned)vf_concretize(v);
}
unsigned vf_range(const char *name, unsigned lo, unsigned hi) { return lo + vf_choice(name, hi - lo + 1); }

int vf_alloc_fail_budget = 0;
int vf_alloc_failed = 0;
long vf_live_blocks = 0;

static int fail_now(void) {
  if (vf_alloc_fail_budget <= 0) return 0;
  if (!vf_choice("alloc_fail", 2)) return 0;
  vf_alloc_fail_budget--;
  vf_alloc_failed++;
  return 1;
}
void *vf_malloc(size_t n) {
  if (fail_now()) return NULL;
  void *p = malloc(n);
  if (p) vf_live_blocks++;
  return p;
}
void *vf_calloc(size_t a, size_t b) {
  if (fail_now()) return NULL;
  void *p = calloc(a, b);
  if (p) vf_live_blocks++;
  return p;
}
void *vf_realloc(void *p, size_t n) {
  if (fail_now()) return NULL;
  void *q = realloc(p, n);
  if (q && !p) vf_live_blocks++;
  return q;
}
void vf_free(void *p) {
  if (p) vf_live_blocks--;
  free(p);
}
char *vf_strdup(const char *s) {
  size_t n = 0;
  while (s[n]) n++;
  char *p = vf_malloc(n + 1);
  if (p) memcpy(p, s, n + 1);
  return p;
}
void *vf_memcpy_chk(void *d, const void *s, size_t n, size_t room) {
  vf_assert_(n <= room, "memory: memcpy overflows the destination array");
  return memcpy(d, s, n);
}
void *vf_memset_chk(void *d, int c, size_t n, size_t room) {
  vf_assert_(n <= room, "memory: memset overflows the destination array");
  return memset(d, c, n);
}
char *vf_strcpy_chk(char *d, const char *s, size_t room) {
  size_t i = 0;
  for (;; i++) {
    vf_assert_(i < room, "memory: strcpy overflows the destination array");
    d[i] = s[i];
    if (!s[i]) break;
  }
  return d;
}
static void put(char *d, size_t room, size_t *k, char c, int bounded) {
  if (*k < room) d[*k] = c;
  else if (!bounded) vf_assert_(0, "memory: sprintf overflows the destination array");
  (*k)++;
}
int vf_sprintf_n(char *d, size_t room, const char *f, const long *a) {
  size_t k = 0;
  size_t cap = room;
  int bounded = 1;
  // sprintf passes the destination's object size; snprintf an explicit limit. Both must hold.
  for (; *f; f++) {
    if (*f != '%') { put(d, cap ? cap : 0, &k, *f, bounded); continue; }
    f++;
    while (*f == '0' || *f == 'l' || *f == 'z' || *f == 'h' || (*f >= '1' && *f <= '9')) f++;
    if (*f == 'd' || *f == 'i' || *f == 'u') {
      long v = *f == 'u' ? (long)(unsigned)*a++ : (long)(int)*a++;
      char t[24];
      int n = 0;
      unsigned long u = v < 0 ? -(unsigned long)v : (unsigned long)v;
      if (v < 0) put(d, cap, &k, '-', bounded);
      if (u < 10) { t[n++] = (char)('0' + u); }
      else if (u < 100) { t[n++] = (char)('0' + u % 10); t[n++] = (char)('0' + u / 10); }
      else if (u < 1000) { t[n++] = (char)('0' + u % 10); t[n++] = (char)('0' + u / 10 % 10); t[n++] = (char)('0' + u / 100); }
      else { u = vf_concretize(u); while (u) { t[n++] = (char)('0' + u % 10); u /= 10; } }
      while (n) put(d, cap, &k, t[--n], bounded);
    } else if (*f == 's') {
      const char *s = (const char *)*a++;
      for (; *s; s++) put(d, cap, &k, *s, bounded);
    } else if (*f == 'c') put(d, cap, &k, (char)*a++, bounded);
    else put(d, cap, &k, *f, bounded);
  }
  if (room) {
    if (room > 100000) vf_assert_(1, "");
    d[k < room ? k : room - 1] = 0;
  }
  return (int)k;
}
// Output is discarded; strings passed are read to their end.
int vf_printf_n(const char *f, const long *a) {
  int n = 0;
  for (; *f; f++) {
    if (*f != '%') continue;
    f++;
    while ((*f >= '0' && *f <= '9') || *f == '-' || *f == 'l' || *f == 'z' || *f == 'h' || *f == '.') f++;
    if (*f == '%') continue;
    if (*f == 's') for (const char *s = (const char *)*a; *s; s++) n++;
    a++;
  }
  return n;
}
static int hexv(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
int vf_sscanf_n(const char *s, const char *f, const long *a) {
  int got = 0;
  for (; *f; f++) {
    if (*f == '%') {
      f++;
      int width = 0, hh = 0;
      while (*f >= '0' && *f <= '9') { width = width * 10 + (*f - '0'); f++; }
      while (*f == 'h') { hh++; f++; }
      if (*f == 'd') {
        while (*s == ' ' || *s == '\t' || *s == '\n') s++;
        int neg = 0;
        if (*s == '-' || *s == '+') { neg = *s == '-'; s++; }
        if (!(*s >= '0' && *s <= '9')) return got ? got : (*s ? got : -1);
        long v = 0;
        int n = 0;
        while (*s >= '0' && *s <= '9' && n < 18) { v = v * 10 + (*s - '0'); s++; n++; }
        *(int *)*a++ = (int)(neg ? -v : v);
        got++;
      } else if (*f == 'x') {
        int v = 0, n = 0;
        while (hexv(*s) >= 0 && (!width || n < width)) { v = v * 16 + hexv(*s); s++; n++; }
        if (!n) return got ? got : (*s ? got : -1);
        if (hh == 2) *(unsigned char *)*a++ = (unsigned char)v;
        else *(unsigned *)*a++ = (unsigned)v;
        got++;
      } else return got;
    } else {
      if (*s != *f) return got ? got : (*s ? got : -1);
      s++;
    }
  }
  return got;
}
