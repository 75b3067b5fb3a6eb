// Small vocabulary for demonstrations: a camera that signs a stream and a viewer that validates it, with real keys.
#include <assert.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "includes/signed_video_auth.h"
#include "includes/signed_video_common.h"
#include "includes/signed_video_helpers.h"
#include "includes/signed_video_openssl.h"
#include "includes/signed_video_sign.h"
typedef struct { uint8_t *d; size_t n; char kind; int gop; } u_t;
static u_t U[4096];
static int nU;
static inline void setkey(signed_video_t *c, bool rsa) {
  char *k = NULL; size_t n = 0;
  SignedVideoReturnCode rc = rsa ? signed_video_generate_rsa_private_key(NULL, &k, &n) : signed_video_generate_ecdsa_private_key(NULL, &k, &n);
  if (rc != SV_OK || signed_video_set_private_key_new(c, k, n) != SV_OK) { printf("no key\n"); exit(3); }
  free(k);
}
static inline signed_video_t *camera(SignedVideoCodec codec, int level, bool rsa) {
  signed_video_t *c = signed_video_create(codec);
  setkey(c, rsa);
  signed_video_set_authenticity_level(c, (SignedVideoAuthenticityLevel)level);
  signed_video_set_product_info(c, "hw", "fw", "serial", "maker", "address");
  return c;
}
static inline u_t mk(SignedVideoCodec codec, char kind, unsigned id, size_t payload) {
  u_t u = {0};
  u.n = 4 + (codec == SV_CODEC_H264 ? 1 : 2) + 1 + payload + 1;
  u.d = calloc(1, u.n);
  u.kind = kind;
  u.d[3] = 1;
  size_t k = 4;
  if (codec == SV_CODEC_H264) u.d[k++] = kind == 'I' ? 0x65 : kind == 'v' ? 0x67 : 0x01;
  else { u.d[k++] = kind == 'I' ? 0x26 : kind == 'v' ? 0x42 : 0x02; u.d[k++] = 1; }
  u.d[k++] = 0x80 | (id & 0x7f);
  for (size_t i = 0; i < payload; i++) u.d[k++] = (uint8_t)(0x11 + ((id + i) & 0x7f));
  u.d[k++] = 0x80;
  return u;
}
static inline void fetch(signed_video_t *c, int gop) {
  for (;;) {
    size_t n = 0;
    if (signed_video_get_sei(c, NULL, &n, NULL, NULL, 0, NULL) != SV_OK || n == 0) return;
    u_t s = {malloc(n), n, 'S', gop};
    if (signed_video_get_sei(c, s.d, &n, NULL, NULL, 0, NULL) != SV_OK) { printf("no SEI\n"); exit(3); }
    U[nU++] = s;
  }
}
// Signs |u|; available SEIs go first.
static inline void sign(signed_video_t *c, u_t u) {
  if (signed_video_add_nalu_for_signing(c, u.d, u.n) != SV_OK) { printf("signing failed\n"); exit(3); }
  fetch(c, u.gop - 1);
  U[nU++] = u;
}
static inline void gops(signed_video_t *c, SignedVideoCodec codec, int first, int n, int pics, size_t payload) {
  for (int g = first; g < first + n; g++)
    for (int i = 0; i <= pics; i++) {
      u_t u = mk(codec, i ? 'P' : 'I', (unsigned)(g * (pics + 1) + i), payload);
      u.gop = g;
      sign(c, u);
    }
}
typedef struct { signed_video_t *sv; int ok, notok, missing, present, unsigned_, acc, pub; char marks[8192]; signed_video_authenticity_t *last; } v_t;
static inline void feed(v_t *v, u_t u) {
  signed_video_authenticity_t *r = NULL;
  SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(v->sv, u.d, u.n, &r);
  if (getenv("SVD")) printf("feed %c gop %d rc %d\n", u.kind, u.gop, rc);
  if (!r) return;
  if (getenv("SVD")) printf("  report %d acc %d key changed %d\n    %s\n    %s\n", r->latest_validation.authenticity, r->accumulated_validation.authenticity, r->latest_validation.public_key_has_changed, r->latest_validation.nalu_str, r->latest_validation.validation_str);
  switch (r->latest_validation.authenticity) {
    case SV_AUTH_RESULT_OK: v->ok++; break;
    case SV_AUTH_RESULT_NOT_OK: v->notok++; break;
    case SV_AUTH_RESULT_OK_WITH_MISSING_INFO: v->missing++; break;
    case SV_AUTH_RESULT_SIGNATURE_PRESENT: v->present++; break;
    default: v->unsigned_++;
  }
  v->acc = r->accumulated_validation.authenticity;
  v->pub |= r->accumulated_validation.public_key_has_changed;
  strncat(v->marks, r->latest_validation.validation_str ? r->latest_validation.validation_str : "", 200);
  if (v->last) signed_video_authenticity_report_free(v->last);
  v->last = r;
}
static inline v_t viewer(SignedVideoCodec codec) { v_t v; memset(&v, 0, sizeof v); v.sv = signed_video_create(codec); return v; }
#define MUST(c, msg) do { if (!(c)) { printf("FAIL: %s\n", msg); exit(1); } } while (0)
