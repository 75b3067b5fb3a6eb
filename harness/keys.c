// Two cameras with different keys sign the same (or altered) pictures. The viewer starts on the stream of one and is
// switched to the other. A change of key never goes unnoticed.
#define CHAN_NO_MAIN
#include "chan.c"
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 3
#endif
#ifndef MAXP
#define MAXP 1
#endif
#ifndef RECUR
#define RECUR 1
#endif
#ifndef KEYB
#define KEYB 'B'
#endif
static unit_t A[MAXN], B[MAXN];
static void sign(signed_video_t *c, unit_t *out, const unsigned *np, int altered_from) {
  uint8_t id = 0x10;
  nU = 0;
  for (int g = 0; g <= NG; g++) {
    int start = nU;
    uint8_t x = g >= altered_from ? 0x80 : 0;
    cam_add(c, mk_unit(CODEC, 'I', (uint8_t)(x | id++)), NULL);
    for (unsigned k = 0; k < np[g]; k++) cam_add(c, mk_unit(CODEC, 'P', (uint8_t)(x | id++)), NULL);
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
#ifdef REKEY  // the same camera gets another key
    if (altered_from > NG && g == REKEY - 1) {
      char pem[5] = {'P', 'R', 'I', 'V', KEYB};
      vf_assert(signed_video_set_private_key_new(c, pem, 5) == SV_OK, "a new private key is accepted");
    }
#endif
  }
  for (int i = 0; i < nU; i++) out[i] = U[i];
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  unsigned level = LEVEL, np[NG + 1] = {0};
  for (int g = 0; g < NG; g++) np[g] = vf_choice("gop_len", MAXP + 1);
  signed_video_t *a = camera(CODEC, level, KEY), *b = camera(CODEC, level, KEYB);
  vf_assert(signed_video_set_recurrence_interval_frames(a, RECUR) == SV_OK, "set recurrence");
  vf_assert(signed_video_set_recurrence_interval_frames(b, RECUR) == SV_OK, "set recurrence");
#ifdef BNOKEY
  vf_assert(signed_video_add_public_key_to_sei(b, false) == SV_OK, "no key in SEI");
#endif
#ifdef ANOKEY
  vf_assert(signed_video_add_public_key_to_sei(a, false) == SV_OK, "no key in SEI");
#endif
  int alt = 1 + (int)vf_choice("altered_from", NG);
  sign(a, A, np, 99);
  int n = nU;
  sign(b, B, np, alt);
  vf_assert(n == nU, "both cameras produce the same number of units");
  signed_video_free(a);
  signed_video_free(b);
  // Switch between the streams.
#ifdef CUT0
  int cut = 0, cut2 = n;
#else
  int first = 0;
  while (first < n && A[first].kind != 'S') first++;
#ifdef CUT1
  int cut = first + 1 + (int)vf_choice("cut", (unsigned)(n - first - 1)), cut2 = cut + 1 + (int)vf_choice("cut2", (unsigned)(n - cut));
#else
  int cut = first + 1 + (int)vf_choice("cut", (unsigned)(n - first - 1)), cut2 = n;
#endif
#endif
#ifdef REKEY
  cut = cut2 = n;
#endif
  bool fromB[MAXN] = {0};
  nR = n;
  for (int i = 0; i < n; i++) {
    fromB[i] = i >= cut && i < cut2;
    R[i] = fromB[i] ? B[i] : A[i];
    U[i] = A[i];
#ifdef REKEY
    fromB[i] = A[i].gop >= REKEY - 1;
#endif
  }
  viewer_t v;
  viewer_init(&v, CODEC);
#ifdef SETKEY
  char pub[6] = {'-', 'P', 'U', 'B', SETKEY, '\n'};
  vf_assert(signed_video_set_public_key(v.sv, pub, 6) == SV_OK, "set public key");
#endif
  bool announced = false;
  for (int i = 0; i < nR; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    if (!r) continue;
    vf_trace(r->latest_validation.nalu_str, (uint64_t)r->accumulated_validation.authenticity);
    vf_trace(r->latest_validation.validation_str, (uint64_t)r->latest_validation.authenticity);
    if (r->latest_validation.public_key_has_changed) {
      vf_reach("announced");
      announced = true;
      vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_NOT_OK, "a report announcing a new key is not OK");
    }
    vf_assert(r->accumulated_validation.public_key_has_changed == announced, "a change of key is remembered");
    if (announced) vf_assert(r->accumulated_validation.authenticity == SV_AUTH_RESULT_NOT_OK, "after a change of key the stream is not OK");
#if defined(BNOKEY) || (defined(ANOKEY) && !defined(SETKEY))
    vf_assert(!announced, "no key change without another key");
#endif
  }
  for (int i = 0; i < nR; i++) {
    if (R[i].kind != 'S' || !fromB[i]) continue;
    if (v.okst[i] == '.') vf_assert(announced, "no signature of another key is accepted without announcing the change of key");
#ifdef BNOKEY
    vf_assert(v.okst[i] != '.', "a signature that does not belong to the known key is not authentic");
#endif
  }
  for (int i = 0; i < nR; i++) {
    if (!is_pic(R[i].kind)) continue;
    if (!same(R[i], U[i]) && v.okst[i] == '.') vf_assert(announced, "no picture signed by another key is accepted without announcing the change of key");
#ifdef BNOKEY
    if (!same(R[i], U[i])) vf_assert(v.okst[i] != '.', "pictures signed by an unknown key are not authentic");
#endif
  }
#ifdef NEVER_OK
  vf_assert(v.n_ok == 0 && v.n_missing_info == 0, "without the right key nothing is reported OK");
  for (int i = 0; i < nR; i++) vf_assert(v.okst[i] != '.', "without the right key nothing is authentic");
#endif
#ifdef ALL_OK
  vf_assert(v.n_ok == NG && v.n_notok == 0, "a key provided beforehand validates the stream");
#endif
#ifdef EXPECT_FLAG
  vf_assert(v.rep && v.rep->accumulated_validation.authenticity != SV_AUTH_RESULT_OK, "a stream signed by another key than the provided one is not OK");
#endif
  viewer_free(&v);
  vf_reach("end");
}
