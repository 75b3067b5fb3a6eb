// Every signature verification may succeed, fail or report an error, whatever the data: only positively verified
// signatures vouch for anything.
#define CHAN_NO_MAIN
#include "chan.c"
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 3
#endif
#ifndef MAXP
#define MAXP 1
#endif
void harness(void) {
  ossl_sig_size_fixed = 9;
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
#ifdef GOLDEN
  vf_assert(signed_video_set_using_golden_sei(c, true) == SV_OK, "golden");
  vf_assert(signed_video_generate_golden_sei(c) == SV_OK, "golden SEI");
  cam_fetch(c);
  U[nU - 1].kind = 'G';
  U[nU - 1].gop = -2;
#endif
  uint8_t id = 0x10;
  for (int g = 0; g <= NG; g++) {
    int start = nU;
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    unsigned np = g < NG ? vf_choice("gop_len", MAXP + 1) : 0;
    for (unsigned k = 0; k < np; k++) cam_add(c, mk_unit(CODEC, "Pp"[k & 1], id++), NULL);
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
  signed_video_free(c);
  for (int i = 0; i < nU; i++) R[i] = U[i];
  nR = nU;
#ifdef DROPS  // one SEI may be lost, so that one report covers several GOPs
  if (vf_choice("lose", 2)) del(pick("which", 0, nR, 'S'));
#endif
  ossl_verify_mode = 1;
  viewer_t v;
  viewer_init(&v, CODEC);
#ifdef SETKEY
  char pub[6] = {'-', 'P', 'U', 'B', KEY, '\n'};
  vf_assert(signed_video_set_public_key(v.sv, pub, 6) == SV_OK, "set public key");
#endif
  int total_bad = 0;
  for (int i = 0; i < nR; i++) {
    int bad0 = ossl_verify_bad, calls0 = ossl_verify_calls;
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    int bad = ossl_verify_bad - bad0, calls = ossl_verify_calls - calls0;
    if (bad && v.n_ok + v.n_missing_info > 0) total_bad += bad;
    if (!r) continue;
    vf_trace(r->latest_validation.nalu_str, (uint64_t)r->accumulated_validation.authenticity);
    vf_trace(r->latest_validation.validation_str, (uint64_t)r->latest_validation.authenticity);
    SignedVideoAuthenticityResult a = r->latest_validation.authenticity;
    if (a >= SV_AUTH_RESULT_OK_WITH_MISSING_INFO) {
      vf_reach("ok");
      vf_assert(calls > 0, "an OK verdict rests on a signature verification");
      vf_assert(bad == 0, "an OK verdict rests only on signatures that verified");
    }
    if (bad) {
      vf_reach("bad");
      if (a > SV_AUTH_RESULT_SIGNATURE_PRESENT && calls == 1)
        for (int k = 0; k < v.n; k++)
          if (is_pic(R[k].kind) || R[k].kind == 'S') vf_assert(!(v.fin[k] == '.' && v.fresh[k]), "no unit becomes authentic by a signature that did not verify");
    }
    if (total_bad) vf_assert(r->accumulated_validation.authenticity < SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "a failed verification stays visible in the overall verdict");
  }
  viewer_free(&v);
  vf_reach("end");
}
