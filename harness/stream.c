// Untampered streams: whatever the camera produced, delivered as it was, validates as authentic.
#define CHAN_NO_MAIN
#include "chan.c"
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 3
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef EPB
#define EPB vf_choice("epb", 2)
#endif
#ifndef EOS2
#define EOS2 0
#endif
#ifndef RECUR
#define RECUR 1
#endif
#ifndef SEPTYPES
#define SEPTYPES 1
#endif
static uint8_t nextid = 0x10;
static uint8_t pic_id(void) {
#ifdef SYMIDS
  uint8_t x = vf_u8("content");
  vf_assume(x != 0);
  return x;
#else
  return nextid++;
#endif
}
static void maybe_other(signed_video_t *c) {
#ifdef OTHERS
  unsigned k = vf_choice("other_unit", 4);
  if (k) cam_add(c, mk_unit(CODEC, " v_z"[k], nextid++), NULL);
#endif
}
void harness(void) {
#ifdef SPARSE
  ossl_hash_sparse = 1;
#endif
#ifdef SIGSYM
  ossl_sig_symbolic = 1;
#endif
  ossl_sig_size_fixed = SIGSIZE;
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "a supported hash algorithm is accepted");
#endif
  vf_assert(signed_video_set_sei_epb(c, EPB) == SV_OK, "set epb");
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "set recurrence");
#ifdef NOKEY
  vf_assert(signed_video_add_public_key_to_sei(c, false) == SV_OK, "no key in SEI");
#endif
#ifdef MAXSEI
  vf_assert(signed_video_set_max_sei_payload_size(c, MAXSEI) == SV_OK, "max size");
#endif
#ifdef GOLDEN
  vf_assert(signed_video_set_using_golden_sei(c, true) == SV_OK, "golden");
  vf_assert(signed_video_generate_golden_sei(c) == SV_OK, "golden SEI");
  cam_fetch(c);
  U[nU - 1].kind = 'G';
  U[nU - 1].gop = -2;
#endif
  int ngop = NG, npic = 0;
#ifdef STARTP  // signing starts in the middle of a GOP
  cam_add(c, mk_unit(CODEC, 'P', pic_id()), NULL);
#endif
  for (int g = 0; g <= ngop; g++) {
    int start = nU;
    maybe_other(c);
    cam_add(c, mk_unit(CODEC, 'I', pic_id()), NULL);
    npic++;
    unsigned np = g < ngop ? vf_choice("gop_len", MAXP + 1) : 0;
    for (unsigned k = 0; k < np; k++) { cam_add(c, mk_unit(CODEC, vf_choice("slice", SLICES) ? 'p' : 'P', pic_id()), NULL); npic++; }
#ifdef EOSMID
    if (g == EOSMID) { cam_eos(c); if (EOS2) cam_eos(c); }
#endif
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
#ifdef EOS
  cam_eos(c);
  U[nU - 1].gop = ngop;
  ngop++;
#endif
  signed_video_free(c);
  for (int i = 0; i < nU; i++) R[i] = U[i];
  nR = nU;
#ifdef DELAY
  // Deliver one of the SEIs, or all of them, a number of units later.
  {
    unsigned d = 1 + vf_choice("delay", DELAY);
    unsigned all = vf_choice("delay_all", 2);
    int t = all ? -1 : pick("which", 0, nR, 'S');
    for (int i = nR - 1; i >= 0; i--) {
      if (R[i].kind != 'S' || (t >= 0 && i != t)) continue;
      unit_t s = R[i];
      int to = i + (int)d;
      // Keep the order among SEIs and the end of the stream.
      if (to >= nR) continue;
      bool passes = false;
      for (int k = i + 1; k <= to; k++) passes |= R[k].kind == 'S';
      if (passes) vf_assume(0);
      for (int k = i; k < to; k++) R[k] = R[k + 1];
      R[to] = s;
    }
  }
#endif
  viewer_t v;
  viewer_init(&v, CODEC);
#ifdef NOKEY
  char pub[6] = {'-', 'P', 'U', 'B', KEY, '\n'};
  vf_assert(signed_video_set_public_key(v.sv, pub, 6) == SV_OK, "set public key");
#endif
  int exp = 0, rec = 0;
  for (int i = 0; i < nR; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    vf_assert(v.rc == SV_OK, "validating an authentic unit succeeds");
    if (!r) continue;
    check_report(&v);
    vf_assert(!r->latest_validation.public_key_has_changed, "the key of an authentic stream has not changed");
#ifdef DELAY  // nothing is known to be signed before the first SEI
    if (r->latest_validation.authenticity == SV_AUTH_RESULT_NOT_SIGNED) {
      for (int k = 0; k <= i; k++) vf_assert(R[k].kind != 'S', "a stream with a SEI is signed");
      continue;
    }
#endif
#ifdef STARTP
    if (v.nrep == 1 && r->latest_validation.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT) continue;
#endif
    vf_assert(v.n_M == 0, "nothing is missing from an authentic stream");
    for (int k = 0; k < v.n; k++) vf_assert(v.fin[k] == 0 || v.fin[k] == '.' || v.fin[k] == 'P' || v.fin[k] == '_' || v.fin[k] == 'U', "no unit of an authentic stream is marked invalid");
#ifdef STARTP
    if (v.nrep == 1 && r->latest_validation.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT) continue;
#endif
#ifdef GOLDEN
    if (v.nrep == 1) {
      vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT, "golden SEI announces a signed stream");
      continue;
    }
#endif
#ifndef DELAY
    vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK, "an authentic stream is reported OK");
    vf_assert(r->latest_validation.number_of_expected_picture_nalus == r->latest_validation.number_of_received_picture_nalus, "expected and received pictures agree for an authentic stream");
#else
    vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK || r->latest_validation.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT, "an authentic stream with late SEIs is reported OK");
#endif
    exp += r->latest_validation.number_of_expected_picture_nalus;
    rec += r->latest_validation.number_of_received_picture_nalus;
  }
  vf_assert(v.rep && v.rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK, "an authentic stream is accumulated as OK");
  for (int i = 0; i < nR; i++) {
    if (R[i].kind == 'v' || R[i].kind == '_' || R[i].kind == 'z') vf_assert(v.st[i] == '_' || v.st[i] == 0, "units that are not signed are ignored");
    else if (is_pic(R[i].kind) && R[i].gop < ngop) vf_assert(v.st[i] == '.', "every picture covered by a received signature is authentic");
    else if (R[i].kind == 'S') vf_assert(v.st[i] == '.', "every authentic SEI is valid");
  }
  viewer_free(&v);
  vf_reach("end");
}
