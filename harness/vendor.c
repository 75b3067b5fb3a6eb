// Axis Communications attestation: the public key is reported as validated exactly when the device that the product
// information names has attested it.
#include "common.h"
#include "attest.h"
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef RECUR
#define RECUR 1
#endif
static signed_video_t *cam(char key, const char *manufacturer, const char *serial) {
  signed_video_t *c = camera(CODEC, LEVEL, key);
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "recurrence");
  vf_assert(signed_video_set_product_info(c, "hw", "fw", serial, manufacturer, "a") == SV_OK, "product info");
  return c;
}
#ifndef MAXP
#define MAXP 1
#endif
static const char *second_manufacturer;
static bool change;
static void shoot(signed_video_t *c, int ng, uint8_t id) {
  for (int g = 0; g <= ng; g++) {
    if (g == 2 && change) vf_assert(signed_video_set_product_info(c, "hw", "fw", SERIAL, second_manufacturer, "a") == SV_OK, "product info");
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    unsigned np = g < ng ? vf_choice("gop_len", MAXP + 1) : 0;
    for (unsigned k = 0; k < np; k++) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
  }
  signed_video_free(c);
}
#ifndef NG
#define NG 2
#endif

#ifdef GENUINE
void harness(void) {
  ossl_sig_size_fixed = 9;
  certs();
  signed_video_t *c = cam(KEY, AXIS, SERIAL);
  uint8_t a[64];
  size_t n = attestation(a, 'L', KEY, kChip);
  unsigned how = vf_choice("set", 3);
  if (how == 0) vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)n, CHAIN) == SV_OK, "attestation is accepted");
  else {
    vf_assert(sv_vendor_axis_communications_set_attestation_report(c, how == 1 ? a : NULL, how == 1 ? (uint8_t)n : 0, how == 1 ? NULL : CERT("a") CERT("i") "-----BEGIN CERTIFICATE-----\nroot\n-----END CERTIFICATE-----") == SV_OK, "attestation is accepted");
    vf_assert(sv_vendor_axis_communications_set_attestation_report(c, how == 1 ? NULL : a, how == 1 ? 0 : (uint8_t)n, how == 1 ? CHAIN : NULL) == SV_OK, "attestation is accepted");
  }
  memset(a, 0, sizeof a);
  shoot(c, NG, 0x10);
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nU; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    vf_assert(v.rc == SV_OK, "validation succeeds");
    if (!r || r->latest_validation.authenticity < SV_AUTH_RESULT_NOT_OK) continue;
    vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK, "the stream is authentic");
    vf_assert(r->latest_validation.public_key_validation == SV_PUBKEY_VALIDATION_OK, "an attested public key is reported as validated");
    vf_assert(r->accumulated_validation.public_key_validation == SV_PUBKEY_VALIDATION_OK, "an attested public key is reported as validated overall");
  }
  vf_assert(v.n_ok == NG, "all GOPs are validated");
  viewer_free(&v);
  vf_reach("end");
}
#endif

#ifdef FORGED  // nothing but the genuine attestation of this key by this device is accepted
void harness(void) {
  ossl_sig_size_fixed = 9;
  certs();
  uint8_t a[64];
  uint8_t chip[18];
  memcpy(chip, kChip, 18);
  char key = KEY, signer = 'L', attested = KEY;
  const char *serial = SERIAL, *chain = CHAIN;
  static char name[80];
  ossl_cert_t *k = &ossl_certs[0];
#ifdef WAY
  unsigned way = WAY;
#else
  unsigned way = vf_choice("way", 14);
#endif
  switch (way) {
    case 0: break;  // a byte of the attestation, below
    case 1: attested = 'B'; break;                 // another key was attested
    case 2: signer = 'K'; break;                   // not signed by the certified device
    case 3: k->chain_ok = 0; break;                // the certificate is not issued by the vendor
    case 4: k->chain_ok = -1; break;
    case 5: { static const char *const other[] = {"SN1234567891", "SN", "SN12345678901", "SN1234567890 ", "XN1234567890", "sn1234567890"}; serial = other[vf_choice("serial", 6)]; break; }  // another device
    case 6: serial = ""; break;
    case 7: { int x = (int)vf_choice("chip_byte", 18); chip[x] ^= 1; break; }  // the attestation of another chip
    case 8: {  // not a device certificate
      size_t n = strlen(CN CHIP);
      memcpy(name, CN CHIP, n + 1);
      unsigned p = vf_choice("name_pos", 36);
      if (p < 28) name[p] ^= 1;
      else if (p == 28) name[n - 1] = 0;
      else if (p == 29) { name[n] = '0'; name[n + 1] = 0; }
      else if (p == 30) { name[n] = '0'; name[n + 1] = '1'; name[n + 2] = 0; }
      else if (p == 31) { name[n - 1] ^= 1; }
      else { name[28 + 2 * (p - 32)] ^= 1; chip[p - 32] ^= 0x10; }  // not an Axis chip, though properly attested
      k->cn = name;
      break;
    }
    case 9: k->cn = NULL; break;
    case 10: k->sn = NULL; break;
    case 11: chain = CERT("i") CERT("a") CERT("root"); break;  // not the expected order
    case 12: key = attested = 'Q'; break;  // a key of another kind
    case 13: key = attested = 'R'; break;
    default: vf_assume(0);
  }
  size_t n = attestation(a, signer, attested, chip);
  if (way == 0) {
    // Bytes 0..7 are not signed.
    unsigned at = 8 + vf_choice("at", (unsigned)n - 8);
    uint8_t x = vf_u8("value");
    vf_assume(x != a[at]);
    a[at] = x;
  }
  signed_video_t *c = cam(key, AXIS, serial);
  vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)n, chain) == SV_OK, "attestation is accepted");
  shoot(c, NG, 0x10);
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nU; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    if (!r || r->latest_validation.authenticity < SV_AUTH_RESULT_NOT_OK) continue;
    vf_assert(r->latest_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_OK, "a public key without genuine attestation is reported as such");
    vf_assert(r->accumulated_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_OK, "a public key without genuine attestation is reported as such overall");
    if (r->latest_validation.authenticity == SV_AUTH_RESULT_OK) vf_reach("ok");
  }
  viewer_free(&v);
  vf_reach("end");
}
#endif

#ifdef ABSENT  // no attestation, or no key in the stream
void harness(void) {
  ossl_sig_size_fixed = 9;
  certs();
  uint8_t a[64];
  size_t n = attestation(a, 'L', KEY, kChip);
  unsigned what = vf_choice("what", 6);
  bool other = vf_choice("other_manufacturer", 2);
  signed_video_t *c = cam(KEY, other ? "Axis Communications A" : AXIS, what == 4 ? "" : SERIAL);
  bool nokey = what == 3 || what == 5;
  if (what == 1) vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)n, NULL) == SV_OK, "attestation is accepted");
  if (what == 2) vf_assert(sv_vendor_axis_communications_set_attestation_report(c, NULL, 0, CHAIN) == SV_OK, "attestation is accepted");
  if (what == 3 || (other && what == 0)) vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)n, CHAIN) == SV_OK, "attestation is accepted");
  if (nokey) vf_assert(signed_video_add_public_key_to_sei(c, false) == SV_OK, "no key in SEI");
  shoot(c, NG, 0x10);
  viewer_t v;
  viewer_init(&v, CODEC);
  char pub[] = "-PUBA\n";
  if (nokey) vf_assert(signed_video_set_public_key(v.sv, pub, 6) == SV_OK, "public key");
  for (int i = 0; i < nU; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    vf_assert(v.rc == SV_OK, "a stream without attestation can be validated");
    if (!r || r->latest_validation.authenticity < SV_AUTH_RESULT_NOT_OK) continue;
    vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK, "a stream without attestation is authentic");
    vf_assert(r->latest_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_FEASIBLE, "without attestation the key cannot be validated");
    vf_assert(r->accumulated_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_FEASIBLE, "without attestation the key cannot be validated overall");
  }
  vf_assert(v.n_ok == NG, "all GOPs are validated");
  viewer_free(&v);
  vf_reach("end");
}
#endif

#ifdef SWITCH  // after an attested stream comes another one
void harness(void) {
  ossl_sig_size_fixed = 9;
  certs();
  uint8_t a[64];
  size_t n = attestation(a, 'L', KEY, kChip);
  signed_video_t *c = cam(KEY, AXIS, SERIAL);
  vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)n, CHAIN) == SV_OK, "attestation is accepted");
  shoot(c, 2, 0x10);
  int n0 = nU;
  // Another camera, with its own key and whatever information it likes
  unsigned man = vf_choice("manufacturer", 3), att = vf_choice("attestation", 3);
  signed_video_t *d = cam('B', man == 0 ? AXIS : man == 1 ? "Other" : NULL, SERIAL);
  uint8_t b[64];
  size_t m = attestation(b, 'K', 'B', kChip);
  if (att == 1) vf_assert(sv_vendor_axis_communications_set_attestation_report(d, a, (uint8_t)n, CHAIN) == SV_OK, "attestation is accepted");
  if (att == 2) vf_assert(sv_vendor_axis_communications_set_attestation_report(d, b, (uint8_t)m, CHAIN) == SV_OK, "attestation is accepted");
  unsigned man2 = vf_choice("manufacturer2", 3);
  change = man2 != man;
  second_manufacturer = man2 == 0 ? AXIS : man2 == 1 ? "Other" : NULL;
  shoot(d, 4, 0x60);
  viewer_t v;
  viewer_init(&v, CODEC);
  bool seen = false;
#ifdef BACK  // the other one comes first
  bool bad = false;
  for (int j = 0; j < nU; j++) {
    int i = j < nU - n0 ? n0 + j : j - (nU - n0);
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    if (!r) continue;
    bad |= r->latest_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_OK;
    if (i < n0 && bad) vf_reach("other");
    vf_assert(!bad || r->accumulated_validation.public_key_validation == SV_PUBKEY_VALIDATION_NOT_OK, "a key that failed validation is not reported as validated overall later on");
  }
  viewer_free(&v);
  vf_reach("end");
  return;
#endif
  for (int i = 0; i < nU; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    seen |= i >= n0 && U[i].kind == 'S';
    if (!r) continue;
    if (r->latest_validation.authenticity == SV_AUTH_RESULT_OK && !seen) vf_reach("ok");
    if (!seen) continue;
    vf_reach("other");
    vf_assert(r->latest_validation.public_key_validation != SV_PUBKEY_VALIDATION_OK, "a key that was not attested is not reported as validated");
    vf_assert(r->accumulated_validation.public_key_validation != SV_PUBKEY_VALIDATION_OK, "a key that was not attested is not reported as validated overall");
    vf_assert(r->accumulated_validation.authenticity != SV_AUTH_RESULT_OK && r->accumulated_validation.public_key_has_changed, "the change of key is remembered");
  }
  viewer_free(&v);
  vf_reach("end");
}
#endif

#ifdef OUTCOMES  // every outcome of every verification of the attestation
extern int ossl_attest_calls, ossl_attest_last;
void harness(void) {
  ossl_sig_size_fixed = 9;
  certs();
  uint8_t a[64];
  size_t n = attestation(a, 'L', KEY, kChip);
  signed_video_t *c = cam(KEY, AXIS, SERIAL);
  vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)n, CHAIN) == SV_OK, "attestation is accepted");
  shoot(c, 3, 0x10);
  ossl_attest_mode = 1;
  viewer_t v;
  viewer_init(&v, CODEC);
  bool bad = false, failed = false;
  int calls = 0;
  for (int i = 0; i < nU; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    if (ossl_attest_calls > calls) {
      calls = ossl_attest_calls;
      bad |= ossl_attest_last != 1;
      failed |= ossl_attest_last == 0;
    }
    if (!r || !calls) continue;
    if (r->latest_validation.public_key_validation == SV_PUBKEY_VALIDATION_OK) {
      vf_reach("ok");
      vf_assert(!failed, "a failed validation of the key is never forgotten");
    }
    if (r->latest_validation.authenticity == SV_AUTH_RESULT_OK && !bad)
      vf_assert(r->latest_validation.public_key_validation == SV_PUBKEY_VALIDATION_OK, "an attested public key is reported as validated");
  }
  viewer_free(&v);
  vf_reach("end");
}
#endif
