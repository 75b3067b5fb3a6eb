// libc functions executed by the engine (not linked natively).
#include <stddef.h>
#include <stdint.h>
void *malloc(size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) {
  while (*a && *a == *b) { a++; b++; }
  return (int)(unsigned char)*a - (int)(unsigned char)*b;
}
int strncmp(const char *a, const char *b, size_t n) {
  for (; n; n--, a++, b++) {
    if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b;
    if (!*a) return 0;
  }
  return 0;
}
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++) d[i] = s[i];
  for (; i < n; i++) d[i] = 0;
  return d;
}
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) {
  size_t k = strlen(d), i = 0;
  for (; i < n && s[i]; i++) d[k + i] = s[i];
  d[k + i] = 0;
  return d;
}
char *strchr(const char *s, int c) {
  for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; }
}
char *strrchr(const char *s, int c) {
  const char *r = 0;
  for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; }
}
char *strstr(const char *h, const char *n) {
  size_t k = strlen(n);
  for (; ; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return 0; }
}
void *memchr(const void *s, int c, size_t n) {
  const unsigned char *p = s;
  for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p;
  return 0;
}
int atoi(const char *s) {
  int v = 0, neg = 0;
  while (*s == ' ') s++;
  if (*s == '-') { neg = 1; s++; }
  while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0');
  return neg ? -v : v;
}
long strtol(const char *s, char **e, int b) { int v = atoi(s); if (e) { while (*s == ' ' || *s == '-' || (*s >= '0' && *s <= '9')) s++; *e = (char *)s; } (void)b; return v; }
int abs(int x) { return x < 0 ? -x : x; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
