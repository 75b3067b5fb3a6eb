// The golden SEI: the only place where the key is sent. Nothing is authentic unless the golden SEI is.
#define CHAN_NO_MAIN
#include "chan.c"
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 2
#endif
#ifndef MAXP
#define MAXP 1
#endif
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 100000
#endif
static unit_t golden(char key) {
  signed_video_t *c = camera(CODEC, 1, key);
  vf_assert(signed_video_set_using_golden_sei(c, true) == SV_OK, "golden");
  vf_assert(signed_video_set_product_info(c, "hw", "fw", "sn", "mf", "ad") == SV_OK, "product info");
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "hash");
#endif
  vf_assert(signed_video_generate_golden_sei(c) == SV_OK, "golden SEI");
  nU = 0;
  vf_assert(cam_fetch(c) == 1, "one golden SEI");
  signed_video_free(c);
  unit_t g = U[0];
  g.kind = 'G';
  nU = 0;
  return g;
}
static void shoot(char key, uint8_t id, int ng) {
  signed_video_t *c = camera(CODEC, LEVEL, key);
  vf_assert(signed_video_set_using_golden_sei(c, true) == SV_OK, "golden");
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "hash");
#endif
  for (int g = 0; g <= ng; g++) {
    int start = nU;
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    unsigned np = g < ng ? vf_choice("gop_len", MAXP + 1) : 0;
    for (unsigned k = 0; k < np; k++) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
  signed_video_free(c);
}
#ifdef PLACE  // the golden SEI is the first SEI, wherever it is; it may have been generated in another session
void harness(void) {
  ossl_sig_size_fixed = 9;
  unit_t G = golden(KEY);
  shoot(KEY, 0x10, NG);
  for (int i = 0; i < nU; i++) R[i] = U[i];
  nR = nU;
  int s = 0;
  while (R[s].kind != 'S') s++;
  signed_video_t *q = signed_video_create(CODEC);
  vf_assert(signed_video_is_golden_sei(q, G.d, G.n), "the golden SEI is recognised");
  for (int i = 0; i < nR; i++) vf_assert(!signed_video_is_golden_sei(q, R[i].d, R[i].n), "nothing else is taken for a golden SEI");
  signed_video_free(q);
  int at = (int)vf_choice("at", (unsigned)s + 1);
  ins(at, G);
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nR; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    if (v.rc != SV_OK) vf_trace("rc", v.rc);
    vf_assert(v.rc == SV_OK, "validation succeeds");
    if (i == at) {
      vf_assert(r && r->latest_validation.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT && v.st[i] == '.', "a genuine golden SEI announces a signed stream");
      vf_assert(!strcmp(r->product_info.manufacturer, "mf"), "the golden SEI brings the product information");
      continue;
    }
    if (!r) continue;
    check_report(&v);
    if (i > at) vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK && !r->latest_validation.public_key_has_changed, "the stream is authentic");
  }
  vf_assert(v.n_ok == NG, "every GOP is validated");
  viewer_free(&v);
  vf_reach("end");
}
#endif
#ifdef TAMPER
void harness(void) {
  ossl_sig_size_fixed = 9;
  unit_t G = golden(KEY);
  size_t mlen = 0, slen = 0;
  ossl_msg(ossl_sig_msg(0), &mlen);
  const uint8_t *sg = ossl_sig_bytes(0, &slen);
  int sat = -1;
  for (size_t i = 0; i + slen <= G.n; i++) if (!memcmp(G.d + i, sg, slen)) sat = (int)i;
  vf_assert(sat > 0 && mlen + 4 <= (size_t)sat && (size_t)sat - mlen - 4 <= 16, "everything before the signature is signed");
  shoot(KEY, 0x10, NG);
  for (int i = 0; i < nU; i++) R[i] = U[i];
  nR = nU;
  unit_t T = copy_unit(G);
  int lo = LO, hi = HI < (int)G.n ? HI : (int)G.n;
  vf_assume(lo < hi);
  unsigned off = (unsigned)lo + vf_choice("offset", (unsigned)(hi - lo));
  uint8_t nv = vf_u8("value");
  vf_assume(nv != G.d[off]);
  T.d[off] = nv;
  T.altered = true;
  bool covered = (off >= 4 && off < 4 + mlen) || (off >= (unsigned)sat && off < (unsigned)sat + slen);
  ins(0, T);
  // A SEI that no longer claims to be golden is an ordinary one, which only brings a key.
  unsigned rb = CODEC == SV_CODEC_H264 ? 23 : 24;
  vf_assert(G.d[rb] & 0x40, "golden flag");
  vf_assume(off != rb || (nv & 0x40));
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nR; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    if (!r) continue;
    if (covered) {
      vf_reach("covered");
      vf_assert(r->latest_validation.authenticity != SV_AUTH_RESULT_OK && r->accumulated_validation.authenticity != SV_AUTH_RESULT_OK, "nothing is authentic without a genuine golden SEI");
      vf_assert(v.st[0] != '.', "a tampered golden SEI is not authentic");
    }
    if (r->latest_validation.authenticity == SV_AUTH_RESULT_OK) vf_reach("ok");
  }
  viewer_free(&v);
  vf_reach("end");
}
#endif
#ifdef FOREIGN  // the golden SEI of another signer, first or later
void harness(void) {
  ossl_sig_size_fixed = 9;
  unit_t G = golden(KEY), B = golden('B');
  shoot(KEY, 0x10, 2);
  int n0 = nU;
  shoot('B', 0x60, 2);
  for (int i = 0; i < nU; i++) R[i] = U[i];
  nR = nU;
#if FOREIGN == 0  // in front of the stream
  nR = n0;
  ins(0, B);
#elif FOREIGN == 1  // between the two streams
  ins(n0, B);
  ins(0, G);
  n0++;
#elif FOREIGN == 2  // both in front
  nR = n0;
  ins(0, B);
  ins(1, G);
#else  // no golden SEI of the second stream
  ins(0, G);
  n0++;
#endif
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nR; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    if (!r) continue;
    vf_trace(r->latest_validation.nalu_str, i - n0);
    vf_trace(r->latest_validation.validation_str, r->latest_validation.authenticity);
#if FOREIGN == 0
    vf_assert(r->latest_validation.authenticity != SV_AUTH_RESULT_OK, "nothing is authentic with the golden SEI of another signer");
#elif FOREIGN == 2
    if (r->latest_validation.authenticity == SV_AUTH_RESULT_OK || r->accumulated_validation.authenticity == SV_AUTH_RESULT_OK)
      vf_assert(r->accumulated_validation.public_key_has_changed, "a change of key does not go unnoticed");
#else
    if (i < n0) { if (r->latest_validation.authenticity == SV_AUTH_RESULT_OK) vf_reach("ok"); continue; }
    bool b_ok = false;
    for (int k = n0; k < v.n; k++) b_ok |= is_pic(R[k].kind) && v.okst[k] == '.';
    if (b_ok || r->latest_validation.authenticity == SV_AUTH_RESULT_OK) {
      vf_reach("changed");
      vf_assert(r->accumulated_validation.public_key_has_changed, "a change of key does not go unnoticed");
    }
    int seis = 0;
    for (int k = n0; k <= i; k++) seis += R[k].kind == 'S';
    if (seis) vf_assert(r->accumulated_validation.authenticity != SV_AUTH_RESULT_OK, "a foreign signature shows in the overall verdict");
#endif
  }
  viewer_free(&v);
  vf_reach("end");
}
#endif
