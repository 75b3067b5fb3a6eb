// Units with arbitrary bytes reach every entry point that takes a unit.
#define CHAN_NO_MAIN
#include "chan.c"
#include "includes/signed_video_helpers.h"
#include "seibuild.h"
#ifndef LEVEL
#define LEVEL 1
#endif
#ifndef NB
#define NB 8       // number of arbitrary bytes
#endif
#ifndef FORM
#define FORM 0     // 0 whole unit; 1 TLV part of a SEI; 2 value of one TLV; 3 whole unit after a start code
#endif
#ifndef CTX
#define CTX 0      // 0 fresh viewer; 1 viewer in the middle of a stream; 2 camera; 3 helpers
#endif
#ifndef RESERVED
#define RESERVED 0xb0
#endif
#ifndef TAG
#define TAG 1
#endif
static unit_t hostile(void) {
  unit_t u = {0};
  u.kind = 'x'; u.altered = true; u.gop = -1; u.signed_pos = -1;
#if FORM == 0
  u.n = 1 + vf_choice("size", NB);
  u.d = malloc(u.n);
  vf_sym(u.d, u.n, "unit");
#elif FORM == 3
  u.n = 4 + 1 + vf_choice("size", NB);
  u.d = malloc(u.n);
  vf_sym(u.d, u.n, "unit");
  u.d[0] = u.d[1] = u.d[2] = 0; u.d[3] = 1;
#elif FORM == 1
  sb_t s;
  sb_begin(&s, CODEC, RESERVED);
#ifdef WITH_KEY
  sb_key(&s, 'A');
#endif
  vf_sym(s.b + s.n, NB, "payload");
  s.n += NB;
  u = sb_unit(&s, vf_choice("stop", 2));
#ifdef SIZE_SYM
  u.d[CODEC == SV_CODEC_H264 ? 6 : 7] = vf_u8("size_field");
#endif
#else
  sb_t s;
  sb_begin(&s, CODEC, RESERVED);
  uint8_t sig[9] = {'s', 'i', 'g'};
#ifdef PRE
  sb_byte(&s, PRE);  // one element of another kind in front
  sb_byte(&s, 0);
#if PRE != 1 && PRE != 7
  sb_byte(&s, 0);
#endif
#endif
  if (TAG != 2) sb_key(&s, 'A');
  if (TAG != 1) sb_general(&s, 1, 1, NULL, NULL, 32);
#ifdef BIG  // long values, arbitrary only at their start
  static const unsigned big[] = {43, 75, 76, 100, 139, 140, 141, 147, 148, 149, 150, 255, 256, 257, 258, 289, 290, 513, 520, 577};
  unsigned n = big[vf_choice("value_size", sizeof(big) / sizeof(big[0]))];
  if (TAG == 1) vf_assume(n < 256);  // the size of this element takes one byte only
  sb_head(&s, TAG, n);
  memset(s.b + s.n, 'x', n);
  vf_sym(s.b + s.n, NB, "value");
#else
  unsigned n = vf_choice("value_size", NB + 1);
  sb_head(&s, TAG, n);
  vf_sym(s.b + s.n, n, "value");
#endif
  s.n += n;
  if (TAG != 5) sb_signature(&s, sig, 9, 9, 0);
  u = sb_unit(&s, true);
#endif
  return u;
}
static void feed(viewer_t *v, unit_t u) {
  R[nR++] = u;
  if (viewer_feed(v, &u)) check_report(v);
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  unit_t h = hostile();
#if CTX == 0
  viewer_t v;
  viewer_init(&v, CODEC);
#ifdef BEFORE
  feed(&v, mk_unit(CODEC, 'I', 1));
#endif
  feed(&v, h);
#ifdef TWICE
  feed(&v, copy_unit(h));
#endif
  feed(&v, mk_unit(CODEC, 'I', 2));
  feed(&v, mk_unit(CODEC, 'P', 3));
  feed(&v, mk_unit(CODEC, 'I', 4));
  vf_assert(v.n_ok == 0 && v.n_missing_info == 0, "nothing is authentic without a genuine signature");
  for (int i = 0; i < v.n; i++) vf_assert(v.okst[i] != '.', "nothing is authentic without a genuine signature");
  viewer_free(&v);
#elif CTX == 1
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
  uint8_t id = 0x10;
  for (int g = 0; g <= 3; g++) {
    int start = nU;
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    if (g < 3) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
  signed_video_free(c);
  viewer_t v;
  viewer_init(&v, CODEC);
#ifdef AT
  int at = AT;
#else
  int at = (int)vf_choice("at", (unsigned)nU);
#endif
  for (int i = 0; i < nU; i++) {
    if (i == at) feed(&v, h);
    feed(&v, U[i]);
  }
  for (int i = 0; i < v.n; i++) {
    if (!R[i].altered || v.st[i] != '.') continue;
    bool genuine = false;  // it may happen to be a unit that was signed
    for (int q = 0; q < nU; q++) if (same(R[i], U[q])) { genuine = true; break; }
    vf_assert(genuine, "an arbitrary unit is not authentic");
  }
  check_sound(&v);
  viewer_free(&v);
#elif CTX == 2
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
#ifdef AT
  int at = AT;
#else
  int at = (int)vf_choice("at", 3);
#endif
  for (int i = 0; i < 3; i++) {
    if (i == at) {
      SignedVideoReturnCode rc = signed_video_add_nalu_for_signing(c, h.d, h.n);
      vf_assert(rc == SV_OK || rc == SV_INVALID_PARAMETER, "an arbitrary unit is either signed or rejected");
      if (rc == SV_OK) { cam_fetch(c); push(h); }
    }
    cam_add(c, mk_unit(CODEC, "IPI"[i], (uint8_t)i), NULL);
  }
  signed_video_free(c);
#else
  signed_video_t *c = signed_video_create(CODEC);
  bool golden = signed_video_is_golden_sei(c, h.d, h.n);
  if (golden) vf_reach("golden");
  signed_video_parse_sei(h.d, h.n, CODEC);
  signed_video_free(c);
  c = camera(CODEC, LEVEL, KEY);
  for (int i = 0; i < 2; i++) {
    unit_t u = mk_unit(CODEC, 'I', (uint8_t)i);
    vf_assert(signed_video_add_nalu_for_signing(c, u.d, u.n) == SV_OK, "signing succeeds");
  }
  size_t n = 0;
  vf_assert(signed_video_get_sei(c, NULL, &n, NULL, h.d, h.n, NULL) == SV_OK, "peeking at an arbitrary unit succeeds");
  signed_video_free(c);
#endif
  vf_reach("end");
}
