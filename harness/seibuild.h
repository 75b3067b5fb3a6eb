// Assembles signature SEIs byte by byte, independent of the code under test.
#ifndef SEIBUILD_H
#define SEIBUILD_H
#include "common.h"
typedef struct { uint8_t b[900]; size_t n, content, tag_at; SignedVideoCodec codec; } sb_t;
static void sb_begin(sb_t *s, SignedVideoCodec codec, uint8_t reserved) {
  static const uint8_t uuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};
  memset(s, 0, sizeof *s);
  s->codec = codec;
  memcpy(s->b, uuid, 16);
  s->b[16] = reserved;
  s->n = 17;
}
static inline void sb_byte(sb_t *s, uint8_t v) { s->b[s->n++] = v; }
static void sb_head(sb_t *s, uint8_t tag, size_t n) {
  s->tag_at = s->n;
  sb_byte(s, tag);
  if (tag != 1 && tag != 7) sb_byte(s, (uint8_t)(n >> 8));
  sb_byte(s, (uint8_t)n);
}
static void sb_tlv(sb_t *s, uint8_t tag, const void *v, size_t n) {
  sb_head(s, tag, n);
  memcpy(s->b + s->n, v, n);
  s->n += n;
}
static inline void sb_key(sb_t *s, char key) {
  uint8_t v[7] = {2, '-', 'P', 'U', 'B', (uint8_t)key, '\n'};
  sb_tlv(s, 2, v, 7);
}
// General information of the current format (version 3), without timestamp.
static inline void sb_general(sb_t *s, uint32_t gop, uint16_t num, const uint8_t *linked, const uint8_t *gop_hash, size_t hs) {
  uint8_t v[200] = {3, (uint8_t)(gop >> 24), (uint8_t)(gop >> 16), (uint8_t)(gop >> 8), (uint8_t)gop, (uint8_t)(num >> 8), (uint8_t)num, 1, 1, 29, 0};
  for (size_t i = 0; i < hs; i++) { v[11 + i] = linked ? linked[i] : 0; v[11 + hs + i] = gop_hash ? gop_hash[i] : 0; }
  sb_tlv(s, 1, v, 11 + 2 * hs);
}
static inline void sb_signature(sb_t *s, const uint8_t *sig, size_t n, size_t max, uint8_t hash_type) {
  uint8_t v[200] = {1, 2, hash_type, (uint8_t)(n >> 8), (uint8_t)n};
  for (size_t i = 0; i < n; i++) v[5 + i] = sig[i];
  sb_tlv(s, 5, v, 5 + max);
}
// Wraps the content as a unit with start code. With |stop|, ends with the stop bit.
static unit_t sb_unit(const sb_t *s, bool stop) {
  unit_t u = {0};
  uint8_t h[12];
  size_t k = 0, left = s->n;
  h[k++] = 0; h[k++] = 0; h[k++] = 0; h[k++] = 1;
  if (s->codec == SV_CODEC_H264) h[k++] = 6; else { h[k++] = 0x4e; h[k++] = 1; }
  h[k++] = 5;
  while (left >= 0xff) { h[k++] = 0xff; left -= 0xff; }
  h[k++] = (uint8_t)left;
  u.n = k + s->n + (stop ? 1 : 0);
  u.d = malloc(u.n);
  memcpy(u.d, h, k);
  memcpy(u.d + k, s->b, s->n);
  if (stop) u.d[u.n - 1] = 0x80;
  u.kind = 'x'; u.altered = true; u.gop = -1; u.signed_pos = -1;
  return u;
}
#endif
