// Calls of the API with wrong parameters, or at the wrong time, are refused and have no effect (REFUSED). Settings that may be changed
// while signing (CHANGE) keep the stream authentic.
#define CHAN_NO_MAIN
#include "chan.c"
#include "sv_vendor_axis_communications.h"
#ifndef NG
#define NG 2
#endif
#ifndef RECUR
#define RECUR 1
#endif
static unit_t L[MAXN];
static int nL;
static void make_stream(void) {
  uint8_t id = 0x10;
  for (int g = 0; g <= NG; g++) {
    L[nL++] = mk_unit(CODEC, 'I', id++);
    if (g < NG) L[nL++] = mk_unit(CODEC, 'P', id++);
  }
}
static char *str(unsigned k) {
  char *s = malloc(k + 1);
  for (unsigned i = 0; i < k; i++) s[i] = 'a';
  s[k] = 0;
  return s;
}
#ifdef REFUSED
#define NCALLS 17
static SignedVideoReturnCode call(signed_video_t *c, unsigned what, bool started, SignedVideoReturnCode *want) {
  static const uint8_t d[8] = {0, 0, 0, 1, 0x65, 0xa0, 7, 0x80};
  static const uint8_t bad[8] = {0, 0, 0, 1, 0xe5, 0xa0, 7, 0x80};
  static const uint8_t bad265[8] = {0, 0, 0, 1, 0xa6, 0x01, 0xa0, 0x80};
  signed_video_t *self = vf_choice("no_session", 2) ? NULL : c;
  size_t n = 0;
  *want = SV_INVALID_PARAMETER;
  switch (what) {
    case 0:
      switch (vf_choice("how", 3)) {
        case 0: return signed_video_add_nalu_for_signing_with_timestamp(self, NULL, 8, NULL);
        case 1: return signed_video_add_nalu_for_signing_with_timestamp(self, d, 0, NULL);
        default: return signed_video_add_nalu_for_signing_with_timestamp(NULL, d, 8, NULL);
      }
    case 1:
      switch (vf_choice("how", 3)) {
        case 0: return signed_video_add_nalu_part_for_signing_with_timestamp(self, NULL, 8, NULL, vf_choice("last", 2));
        case 1: return signed_video_add_nalu_part_for_signing_with_timestamp(self, d, 0, NULL, vf_choice("last", 2));
        default: return signed_video_add_nalu_part_for_signing_with_timestamp(NULL, d, 8, NULL, vf_choice("last", 2));
      }
    case 2:
      switch (vf_choice("how", 3)) {
        case 0: return signed_video_set_private_key_new(self, NULL, 5);
        case 1: return signed_video_set_private_key_new(self, "PRIVB", 0);
        default: return signed_video_set_private_key_new(NULL, "PRIVB", 5);
      }
    case 3:
      vf_assume(self != NULL);
      *want = SV_EXTERNAL_ERROR;
      return signed_video_set_private_key_new(self, "XRIVB", 5);
    case 4: {
      unsigned algo = vf_u32("algo");
      vf_assume(algo >= SIGN_ALGO_NUM);
      *want = SV_NOT_SUPPORTED;
      return signed_video_set_private_key(self, (sign_algo_t)algo, "PRIVB", 5);
    }
    case 5: {
      unsigned level = vf_u32("bad_level");
      vf_assume(level >= SV_AUTHENTICITY_LEVEL_NUM);
      if (self) *want = SV_NOT_SUPPORTED;
      return signed_video_set_authenticity_level(self, (SignedVideoAuthenticityLevel)level);
    }
    case 6:
      if (self) *want = SV_NOT_SUPPORTED;
      return signed_video_set_recurrence_interval_frames(self, 0);
    case 7: {
      unsigned k = vf_choice("name", 5);
      const char *name[] = {"sha1", "sha512", "no-such-algorithm", "1.2.3.4", NULL};
      if (!self) return signed_video_set_hash_algo(self, name[k]);
      if (started) *want = SV_NOT_SUPPORTED;
      else vf_assume(k == 2 || k == 3);
      SignedVideoReturnCode rc = signed_video_set_hash_algo(self, name[k]);
      if (!started) { vf_assert(rc != SV_OK, "an unknown hash algorithm is refused"); *want = rc; }
      return rc;
    }
    case 8:
      if (self) { vf_assume(started); *want = SV_NOT_SUPPORTED; }
      return signed_video_set_using_golden_sei(self, vf_choice("on", 2));
    case 9:
      switch (vf_choice("how", 2)) {
        case 0: return signed_video_get_sei(self, NULL, NULL, NULL, NULL, 0, NULL);
        default: return signed_video_get_sei(NULL, NULL, &n, NULL, NULL, 0, NULL);
      }
    case 10: {
      signed_video_nalu_to_prepend_t p = {0};
      if (vf_choice("how", 2)) return signed_video_get_nalu_to_prepend(NULL, &p);
      return signed_video_get_nalu_to_prepend(self, NULL);
    }
    case 11:
      switch (vf_choice("how", 8)) {
        case 0: return signed_video_set_product_info(NULL, "x", "x", "x", "x", "x");
        case 1: return signed_video_set_end_of_stream(NULL);
        case 2: return signed_video_generate_golden_sei(NULL);
        case 3: return signed_video_reset(NULL);
        case 4: return signed_video_add_public_key_to_sei(NULL, true);
        case 5: return signed_video_set_sei_epb(NULL, true);
        case 6: return signed_video_set_max_sei_payload_size(NULL, 5);
        default: signed_video_nalu_data_free(NULL); signed_video_authenticity_report_free(NULL); signed_video_free(NULL); vf_assert(signed_video_get_authenticity_report(NULL) == NULL, "no report of no session");
          return *want;
      }
    case 12: {  // the key of the signing side comes from its private key
      unsigned how = vf_choice("how", 4);
      if (self && how == 3) *want = SV_NOT_SUPPORTED;
      return signed_video_set_public_key(how == 2 ? NULL : self, how == 0 ? NULL : "-PUBC\n", how == 1 ? 0 : 6);
    }
    case 13: {  // an invalid unit is ignored or refused
      vf_assume(self != NULL);
      const uint8_t *b = CODEC == SV_CODEC_H264 ? bad : bad265;
      if (vf_choice("how", 2)) return *want = signed_video_add_nalu_part_for_signing_with_timestamp(self, b, 8, NULL, true);
      return *want = signed_video_add_nalu_for_signing(self, b, 8);
    }
    case 14: {
      vf_assert(signed_video_create((SignedVideoCodec)(SV_CODEC_NUM + vf_choice("codec", 2))) == NULL && signed_video_create((SignedVideoCodec)-1) == NULL, "no session for an unknown codec");
      return *want;
    }
    case 15: {
      unsigned how = vf_choice("how", 5);
      size_t n = 4 + 252 * vf_choice("long", 2);
      char *a = str((unsigned)n);
      if (how == 0) return sv_vendor_axis_communications_set_attestation_report(NULL, a, 4, "CERT");
      if (how == 1) return sv_vendor_axis_communications_set_attestation_report(self, NULL, 0, NULL);
      if (how == 2) return sv_vendor_axis_communications_set_attestation_report(self, a, 0, "CERT");
      if (how == 3) return sv_vendor_axis_communications_set_attestation_report(self, NULL, 4, "CERT");
      n = 256;
      SignedVideoReturnCode rc = sv_vendor_axis_communications_set_attestation_report(self, str(256), n, "CERT");
      return rc;
    }
    default: {
      unsigned how = vf_choice("how", 3);
      signed_video_authenticity_t *r = NULL;
      return signed_video_add_nalu_and_authenticate(how == 0 ? NULL : self, how == 1 ? NULL : d, how == 2 ? 0 : 8, &r);
    }
  }
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  make_stream();
  unsigned level = vf_choice("level", 2);
  signed_video_t *a = camera(CODEC, level, KEY), *c = camera(CODEC, level, KEY);
  vf_assert(signed_video_set_recurrence_interval_frames(a, RECUR) == SV_OK && signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "recurrence");
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(a, HASH) == SV_OK && signed_video_set_hash_algo(c, HASH) == SV_OK, "hash");
#endif
  unit_t A[MAXN];
  for (int i = 0; i < nL; i++) cam_add(a, L[i], NULL);
  cam_eos(a);
  int na = ossl_num_sigs(), nA = nU;
  for (int i = 0; i < nU; i++) A[i] = U[i];
  nU = 0;
  int t = (int)vf_choice("when", (unsigned)nL + 1);
  for (int i = 0; i <= nL; i++) {
    if (i == t) {
      SignedVideoReturnCode want, rc = call(c,
#ifdef CALL
          CALL,
#else
          vf_choice("call", NCALLS),
#endif
          i > 0, &want);
      vf_trace("rc", (uint64_t)(int64_t)rc);
      vf_assert(rc == want, "a wrong call is refused with the documented code");
    }
    if (i < nL) cam_add(c, L[i], NULL);
  }
  cam_eos(c);
  signed_video_free(a);
  signed_video_free(c);
  vf_assert(ossl_num_sigs() == 2 * na && nU == nA, "a refused call does not change how much is signed");
  for (int i = 0; i < na; i++) vf_assert(ossl_sig_msg(i) == ossl_sig_msg(na + i), "a refused call does not change what is signed");
  for (int i = 0; i < nU; i++) vf_assert(U[i].n == A[i].n, "a refused call does not change the SEIs");
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nU; i++) {
    viewer_feed(&v, &U[i]);
    vf_assert(v.rc == SV_OK, "validation succeeds");
  }
  vf_assert(v.rep && v.rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK && v.n_ok == NG + 1, "the stream is authentic");
  viewer_free(&v);
  vf_reach("end");
}
#endif
#ifdef VIEWER  // wrong calls on the validating side
void harness(void) {
  ossl_sig_size_fixed = 9;
  make_stream();
  signed_video_t *c = camera(CODEC, vf_choice("level", 2), KEY);
  unsigned preset = vf_choice("preset", 2);
  if (preset) vf_assert(signed_video_add_public_key_to_sei(c, false) == SV_OK, "no key in SEIs");
  for (int i = 0; i < nL; i++) cam_add(c, L[i], NULL);
  signed_video_free(c);
  viewer_t v;
  viewer_init(&v, CODEC);
  int t = (int)vf_choice("when", (unsigned)nU + 1);
  SignedVideoReturnCode rc;
  if (preset) {
    if (vf_choice("garbage_first", 2)) vf_assert(signed_video_set_public_key(v.sv, "GARBAG", 6) != SV_OK, "an unreadable key is refused");
    vf_assert(signed_video_set_public_key(v.sv, "-PUBA\n", 6) == SV_OK, "a key can be provided before validation");
  }
  for (int i = 0; i <= nU; i++) {
    if (i == t) {
      unsigned how = vf_choice("how", 8);
      signed_video_authenticity_t *r = NULL;
      signed_video_t *self = vf_choice("no_session", 2) ? NULL : v.sv;
      switch (how) {
        case 0: vf_assert(signed_video_add_nalu_and_authenticate(self, NULL, 8, &r) == SV_INVALID_PARAMETER && !r, "refused"); break;
        case 1: vf_assert(signed_video_add_nalu_and_authenticate(self, L[0].d, 0, &r) == SV_INVALID_PARAMETER && !r, "refused"); break;
        case 2: vf_assert(signed_video_add_nalu_and_authenticate(NULL, L[0].d, 8, &r) == SV_INVALID_PARAMETER && !r, "refused"); break;
        case 3: vf_assert(signed_video_set_public_key(self, NULL, 8) == SV_INVALID_PARAMETER, "refused"); break;
        case 4: vf_assert(signed_video_set_public_key(self, "-PUBA\n", 0) == SV_INVALID_PARAMETER, "refused"); break;
        case 5: vf_assert(signed_video_set_public_key(NULL, "-PUBA\n", 6) == SV_INVALID_PARAMETER, "refused"); break;
        case 6:
          if (i == 0 && !preset) break;
          vf_assert(signed_video_set_public_key(v.sv, "-PUBB\n", 6) == SV_NOT_SUPPORTED, "a second or late key is refused");
          break;
        case 7:
          if (i == 0 && !preset) vf_assert(signed_video_set_public_key(v.sv, "GARBAG", 6) != SV_OK, "an unreadable key is refused");
          break;
      }
    }
    if (i < nU) {
      viewer_feed(&v, &U[i]);
      vf_assert(v.rc == SV_OK, "validation succeeds");
      vf_assert(!v.rep || !v.rep->latest_validation.public_key_has_changed, "the key has not changed");
    }
  }
  vf_assert(v.rep && v.rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK && v.n_ok == NG, "the stream is authentic");
  signed_video_authenticity_t *fr = signed_video_get_authenticity_report(v.sv);
  vf_assert(fr->accumulated_validation.number_of_received_nalus == (unsigned)nU, "refused units are not counted");
  signed_video_authenticity_report_free(fr);
  viewer_free(&v);
  vf_reach("end");
}
#endif
#ifdef CHANGE
static bool keyless;
static void change(signed_video_t *c, int i) {
  switch (CHANGE) {
    case 0: vf_assert(signed_video_set_authenticity_level(c, vf_choice("new_level", 2)) == SV_OK, "level"); break;
    case 1: vf_assert(signed_video_set_recurrence_interval_frames(c, 1 + vf_choice("recurrence", 5)) == SV_OK, "recurrence"); break;
    case 2: vf_assert(signed_video_set_sei_epb(c, vf_choice("epb", 2)) == SV_OK, "epb"); break;
    case 3: {
      bool on = vf_choice("with_key", 2);
      if (!on && i < 3) keyless = true;
      vf_assert(signed_video_add_public_key_to_sei(c, on) == SV_OK, "public key");
      break;
    }
    case 4: vf_assert(signed_video_set_max_sei_payload_size(c, vf_choice("size", 6) * 60) == SV_OK, "size"); break;
    case 5: vf_assert(signed_video_set_private_key_new(c, "PRIVA", 5) == SV_OK, "same key"); break;
    case 6: vf_assert(signed_video_set_product_info(c, vf_choice("null", 2) ? NULL : str(vf_choice("len", 3) * 3), "fw", str(vf_choice("len", 2)), "", NULL) == SV_OK, "product info"); break;
    case 7: vf_assert(signed_video_set_end_of_stream(c) == SV_OK, "eos"); cam_fetch(c); break;
  }
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  make_stream();
  signed_video_t *c = camera(CODEC, vf_choice("level", 2), KEY);
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "recurrence");
  int t = (int)vf_choice("when", (unsigned)nL), t2 = (int)vf_choice("when2", (unsigned)nL - (unsigned)t) + t;
  for (int i = 0; i < nL; i++) {
    if (i == t || i == t2) change(c, i);
    cam_add(c, L[i], NULL);
  }
  signed_video_free(c);
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nU; i++) {
    viewer_feed(&v, &U[i]);
    vf_assert(keyless || v.rc == SV_OK, "validation succeeds");
    vf_assert(keyless || !v.nrep || v.rep->latest_validation.authenticity == SV_AUTH_RESULT_OK, "every report is OK");
  }
  vf_assert(keyless || (v.rep && v.rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK && v.n_ok >= NG), "the stream is authentic");
  vf_assert(keyless || v.n_notok == 0, "nothing is reported not OK");
  viewer_free(&v);
  vf_reach("end");
}
#endif
