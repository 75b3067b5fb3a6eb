// Which signatures come with the list of digests: every one at frame level, unless the GOP is too long or the SEI would exceed its limit.
#define CHAN_NO_MAIN
#include "chan.c"
#include "seiparse.h"
#ifndef NG
#define NG 2
#endif
#ifndef MINP
#define MINP 0
#endif
#ifndef MAXP
#define MAXP 3
#endif
#ifndef GOPMAX
#define GOPMAX 8
#endif
#ifndef EPB
#define EPB 0
#endif
#ifndef RECUR
#define RECUR 1
#endif
#ifndef HASHSIZE
#define HASHSIZE 32
#endif
static unit_t L[MAXN];
static int nL, pics[NG + 1];
static sei_t A[NG + 1], B;
static signed_video_t *cam(unsigned level) {
  signed_video_t *c = camera(CODEC, level, KEY);
  vf_assert(signed_video_set_sei_epb(c, EPB) == SV_OK && signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "settings");
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "hash");
#endif
#ifdef INFO
  vf_assert(signed_video_set_product_info(c, "hardware", "firmware", "serial", "me", "here") == SV_OK, "info");
#endif
  return c;
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  uint8_t id = 0x10;
  for (int g = 0; g <= NG; g++) {
    L[nL++] = mk_unit(CODEC, 'I', id++);
    unsigned np = 0;
#ifdef FIRST
    if (g)
#endif
    np = g < NG ? MINP + vf_choice("gop_len", MAXP + 1 - MINP) : 0;
#ifdef FIRST
    if (g == 0) np = FIRST;
#endif
    pics[g] = 1 + (int)np;
    for (unsigned k = 0; k < np; k++) L[nL++] = mk_unit(CODEC, 'P', id++);
  }
  unsigned level = 1;
#ifdef LEVELS
  level = vf_choice("level", 2);
#endif
  signed_video_t *a = cam(level), *c = cam(level);
  for (int i = 0; i < nL; i++) cam_add(a, L[i], NULL);
  int k = 0;
  for (int i = 0; i < nU; i++) if (U[i].kind == 'S') sei_parse(U[i].d, U[i].n, CODEC, EPB, &A[k++]);
  vf_assert(k == NG, "one SEI per GOP");
  for (int g = 0; g < NG; g++) {
    int h = sei_tlv(&A[g], 4);
    if (level == 0) vf_assert(h < 0, "no list of digests at GOP level");
    else if (pics[g] <= GOPMAX) vf_assert(h >= 0, "at frame level, GOPs of the supported length come with a list of digests");
    if (h >= 0) vf_assert(A[g].tlv[h].n == 1 + (size_t)pics[g] * HASHSIZE, "the list holds one digest per picture");
  }
  nU = 0;
#ifdef SIZE
  // Any limit; for the size as such, and after it was changed.
  unsigned m = vf_u16("limit");
  vf_assert(signed_video_set_max_sei_payload_size(c, m) == SV_OK, "limit");
#endif
  for (int i = 0; i < nL; i++) cam_add(c, L[i], NULL);
  signed_video_free(a);
  signed_video_free(c);
  viewer_t v;
  viewer_init(&v, CODEC);
  k = 0;
  for (int i = 0; i < nU; i++) {
#ifdef SIZE
    if (U[i].kind == 'S') {
      sei_parse(U[i].d, U[i].n, CODEC, EPB, &B);
      bool fits = m == 0 || A[k].n <= m;
      bool list = sei_tlv(&B, 4) >= 0;
      vf_assert(list == (fits && sei_tlv(&A[k], 4) >= 0), "the list of digests is left out if, and only if, the SEI exceeds the limit with it");
      if (list) vf_assert(B.n == A[k].n, "same size");
      if (list && m) vf_reach("fits");
      if (!fits) vf_reach("fallback");
      k++;
    }
#endif
    viewer_feed(&v, &U[i]);
    vf_assert(v.rc == SV_OK, "validation succeeds");
    vf_assert(!v.rep || v.rep->latest_validation.authenticity == SV_AUTH_RESULT_OK, "every report is OK");
  }
  vf_assert(v.n_ok == NG && v.rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK, "the stream is authentic");
  viewer_free(&v);
  vf_reach("end");
}
