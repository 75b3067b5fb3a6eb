// What the camera puts into its SEIs: well formed (FORM), and delivered to the viewer (INFO, TS).
#include "seiparse.h"
#ifdef ATT
#include "includes/sv_vendor_axis_communications.h"
#endif
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 2
#endif
#ifndef EPB
#define EPB vf_choice("epb", 2)
#endif
#ifndef RECUR
#define RECUR 1
#endif
static char *str[5];
static size_t slen[5];
#ifdef LENS
static const unsigned lens[] = {LENS};
#else
static const unsigned lens[] = {0, 1, 2, 100, 253, 254, 255, 256, 300};
#endif
static void set_info(signed_video_t *c) {
  for (int f = 0; f < 5; f++) { str[f] = malloc(6); memcpy(str[f], "HFSMA", 6); slen[f] = 5; str[f][0] = (char)('a' + f); }
#ifdef INFO_NULL
  unsigned nul = vf_choice("null_field", 6);
  if (nul < 5) { str[nul] = NULL; slen[nul] = 0; }
#endif
#ifdef FIELD
  int f = FIELD;
#ifdef LEN0
  unsigned n = LEN0 + vf_choice("length", LEN1 - LEN0);
#else
  unsigned n = lens[vf_choice("length", sizeof lens / sizeof *lens)];
#endif
  str[f] = malloc(n + 1);
  for (unsigned i = 0; i < n; i++) str[f][i] = (char)('0' + i % 10);
#ifdef SYMCH
  for (unsigned i = 0; i < n; i++)
    if (i < SYMCH || i + SYMCH >= n || (i >= 253 && i < 256)) { str[f][i] = (char)vf_u8("char"); vf_assume(str[f][i] != 0); }
#endif
  str[f][n] = 0;
  slen[f] = n;
#endif
  vf_assert(signed_video_set_product_info(c, str[0], str[1], str[2], str[3], str[4]) == SV_OK, "setting product information succeeds");
}
#ifdef INFO
static void check_str(const char *got, int f) {
  size_t n = slen[f] > 254 ? 254 : slen[f];
  vf_assert(got != NULL, "product information is delivered");
  for (size_t i = 0; i < n; i++) vf_assert(got[i] == str[f][i], "product information arrives as it was set");
  vf_assert(got[n] == 0, "product information arrives as it was set");
}
#endif
static int64_t ts[NG + 1];
static bool has_ts[NG + 1];
static unsigned nsei;
static void fetch(signed_video_t *c, bool epb) {
  for (;;) {
    size_t n = 0, m = 0;
    int off = -1;
    vf_assert(signed_video_get_sei(c, NULL, &n, NULL, NULL, 0, NULL) == SV_OK, "fetching a SEI succeeds");
    if (!n) return;
    unit_t u = {0};
    u.d = malloc(n);
    u.n = n;
    u.kind = 'S';
    vf_assert(signed_video_get_sei(c, u.d, &m, &off, NULL, 0, NULL) == SV_OK && m == n, "the announced SEI is delivered");
    push(u);
#ifdef FORM
    static sei_t s;
    sei_parse(u.d, u.n, CODEC, epb, &s);
    vf_assert(off == (int)s.off, "the offset to the payload is right");
    vf_assert(nsei >= (unsigned)ossl_num_sigs() ? false : true, "there is a signature for every SEI");
    // The signature is the one made for this SEI, over exactly the bytes before the signature element.
    size_t sn, mn;
    const uint8_t *sig = ossl_sig_bytes((int)nsei, &sn);
    int t = sei_tlv(&s, 5);
    size_t at = s.tlv[t].at;
    vf_assert(s.tlv[t].n >= 5 + sn && (size_t)(s.raw[at + 3] << 8 | s.raw[at + 4]) == sn, "the size of the signature is right");
    uint8_t x = 0;
    for (size_t i = 0; i < sn; i++) x |= (uint8_t)(s.raw[at + 5 + i] ^ sig[i]);
    vf_assert(x == 0, "a SEI carries its own signature");
    const uint8_t *msg = ossl_msg(ossl_sig_msg((int)nsei), &mn);
    vf_assert(mn < u.n - 4, "the signature covers the SEI up to the signature element");
    x = 0;
    for (size_t i = 0; i < mn; i++) x |= (uint8_t)(msg[i] ^ u.d[4 + i]);
    vf_assert(x == 0, "the signature covers the SEI up to the signature element");
    // Count what remains after the signed part: exactly the signature element and the stop bit.
    size_t rest = 0;
    unsigned z = 0;
    for (size_t i = 4; i + 1 < u.n; i++) {
      if (epb && z >= 2 && u.d[i] == 3 && i >= s.off) { z = 0; continue; }
      if (i >= 4 + mn) rest++;
      z = u.d[i] == 0 ? z + 1 : 0;
    }
    vf_assert(rest == s.n - (at - 3), "the signature covers the SEI up to the signature element");
#endif
    nsei++;
  }
}
void harness(void) {
  ossl_sig_size_fixed = SIGSIZE;
#ifdef SIGSYM
  ossl_sig_symbolic = 1;
#endif
#ifdef SPARSE
  ossl_hash_sparse = 1;
#endif
#ifdef MAXSIG
  ossl_max_sig = MAXSIG;
#endif
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
  bool epb = EPB;
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "a supported hash algorithm is accepted");
#endif
  vf_assert(signed_video_set_sei_epb(c, epb) == SV_OK, "set epb");
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "set recurrence");
#ifdef NOKEY
  vf_assert(signed_video_add_public_key_to_sei(c, false) == SV_OK, "no key in SEI");
#endif
#ifdef NOINFO
  for (int f = 0; f < 5; f++) { str[f] = NULL; slen[f] = 0; }
#else
  set_info(c);
#endif
#ifdef ATT
  {
    unsigned n = 1 + vf_choice("att_size", 3) * 127;
    uint8_t *a = malloc(n);
    for (unsigned i = 0; i < n; i++) a[i] = 0;
    a[0] = vf_u8("att0");
    a[n - 1] = vf_u8("att1");
    vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)n, "c") == SV_OK, "attestation");
  }
#endif
#ifdef GOLDEN
  vf_assert(signed_video_set_using_golden_sei(c, true) == SV_OK, "golden");
  vf_assert(signed_video_generate_golden_sei(c) == SV_OK, "golden SEI");
  fetch(c, epb);
#endif
  for (int g = 0; g <= NG; g++) {
    unit_t u = mk_unit(CODEC, 'I', (uint8_t)(0x10 + 2 * g));
#ifdef TS
    has_ts[g] = vf_choice("has_timestamp", 2);
#ifdef TSB  // Bytes TSB.. of the last timestamp only
    ts[g] = 0x1122334455667788;
    if (g == NG) vf_sym((uint8_t *)&ts[g] + TSB, TSN, "timestamp");
    if (g == NG && TSZ) for (int i = 0; i < 8; i++) if (i < TSB || i >= TSB + TSN) ((uint8_t *)&ts[g])[i] = 0;
#else
    vf_sym(&ts[g], 8, "timestamp");
#endif
#endif
    vf_assert(signed_video_add_nalu_for_signing_with_timestamp(c, u.d, u.n, has_ts[g] ? &ts[g] : NULL) == SV_OK, "signing a valid unit succeeds");
    fetch(c, epb);
    push(u);
    if (g < NG) {
      u = mk_unit(CODEC, 'P', (uint8_t)(0x11 + 2 * g));
      int64_t other = 77;
      vf_assert(signed_video_add_nalu_for_signing_with_timestamp(c, u.d, u.n, &other) == SV_OK, "signing a valid unit succeeds");
      fetch(c, epb);
      push(u);
    }
  }
#ifdef EOS
  vf_assert(signed_video_set_end_of_stream(c) == SV_OK, "end of stream");
  fetch(c, epb);
#endif
  signed_video_free(c);
#ifdef ATT  // The certificate chain is not a real one; the viewer is left to the vendor checks.
  vf_reach("end");
  return;
#endif
  viewer_t v;
  viewer_init(&v, CODEC);
#ifdef NOKEY
  char pub[6] = {'-', 'P', 'U', 'B', KEY, '\n'};
  vf_assert(signed_video_set_public_key(v.sv, pub, 6) == SV_OK, "set public key");
#endif
#ifdef TS
  int64_t first = 0;
  bool any = false;
#endif
  int k = 0;
  (void)k;
#ifdef UNASKED
  unsigned unasked = vf_choice("unasked", NG);
#endif
  for (int i = 0; i < nU; i++) {
    unit_t u = U[i];
#ifdef ENCODER
    // The encoder applies emulation prevention to the SEI after it was signed.
    if (u.kind == 'S' && !epb) {
      uint8_t *d = malloc(2 * u.n);
      size_t m = 0;
      unsigned z = 0;
      for (size_t j = 0; j < u.n; j++) {
        if (j >= 4 && z >= 2 && u.d[j] <= 3) { d[m++] = 3; z = 0; }
        d[m++] = u.d[j];
        z = j >= 4 && u.d[j] == 0 ? z + 1 : 0;
      }
      u.d = malloc(m);
      memcpy(u.d, d, m);
      u.n = m;
    }
#endif
#ifdef UNASKED  // a report nobody asks for
    if (u.kind == 'S' && unasked-- == 0) {
      vf_assert(signed_video_add_nalu_and_authenticate(v.sv, u.d, u.n, NULL) == SV_OK, "validating an authentic unit succeeds");
      v.n++;
      k++;
      if (has_ts[k] && !any) first = ts[k];
      any |= has_ts[k];
      v.nrep++;
      continue;
    }
#endif
    signed_video_authenticity_t *r = viewer_feed(&v, &u);
    vf_assert(v.rc == SV_OK, "validating an authentic unit succeeds");
    if (!r) continue;
#ifdef GOLDEN
    if (v.nrep == 1) continue;
#endif
    vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK, "an authentic stream is reported OK");
#ifdef INFO
    check_str(r->product_info.hardware_id, 0);
    check_str(r->product_info.firmware_version, 1);
    check_str(r->product_info.serial_number, 2);
    check_str(r->product_info.manufacturer, 3);
    check_str(r->product_info.address, 4);
    vf_assert(r->version_on_signing_side && strcmp(r->version_on_signing_side, signed_video_get_version()) == 0, "the version of the signing side is delivered");
    vf_assert(r->this_version && strcmp(r->this_version, signed_video_get_version()) == 0, "the own version is reported");
#endif
#ifdef TS
    // The signature of GOP k is made when the next GOP starts, and carries the timestamp of that moment.
    k++;
    vf_assert(k <= NG, "one report per signature");
    vf_assert(r->latest_validation.has_timestamp == has_ts[k], "a timestamp is reported exactly when one was given");
    if (has_ts[k]) {
      vf_assert(r->latest_validation.timestamp == ts[k], "the timestamp arrives as it was given");
      if (!any) first = ts[k];
      any = true;
      vf_assert(r->accumulated_validation.has_timestamp && r->accumulated_validation.first_timestamp == first && r->accumulated_validation.last_timestamp == ts[k],
          "the first and the last timestamp of the session are reported");
    } else vf_assert(r->accumulated_validation.has_timestamp == any, "a session without timestamps does not report any");
#endif
  }
  vf_assert(v.nrep >= NG, "every signature leads to a report");
  viewer_free(&v);
  vf_reach("end");
}
