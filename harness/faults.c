// Memory runs out, or a function of the cryptographic library fails, at any point of a session.
//   SIGN       the signing side; -DWIN=g: faults only while GOP g is added, which must not harm later GOPs
//   SETKEY     replacing the private key fails
//   VIEW       the validating side, compared with a session without faults
//   OSSL       the cryptographic library fails (otherwise: memory allocation fails)
#include "common.h"
#include "attest.h"
#ifdef ATT
#define MANUFACTURER AXIS
#else
#define MANUFACTURER "mf"
#endif
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 2
#endif
#ifndef MAXP
#define MAXP 1
#endif
#ifndef FAULTS
#define FAULTS 1
#endif
static int hits(void) { return vf_alloc_failed + ossl_faults; }
static void inject(int n) {
#ifdef OSSL
  ossl_fault_budget = n;
#else
  vf_alloc_fail_budget = n;
#endif
}
static void quiet(void) { vf_alloc_fail_budget = ossl_fault_budget = 0; }
static void ends(long blocks, long objects) {
  quiet();
  vf_assert(vf_live_blocks == blocks, "all memory is freed with the session");
  vf_assert(ossl_live_objects() == objects, "all objects of the cryptographic library are freed with the session");
}
static bool eq(const char *a, const char *b) { return a && strcmp(a, b) == 0; }

// Fetches all SEIs. Returns false if a call failed.
static bool fetch(signed_video_t *c, int gop) {
  bool ok = true;
#ifdef PREPEND
  for (;;) {
    int h = hits();
    signed_video_nalu_to_prepend_t p;
    SignedVideoReturnCode rc = signed_video_get_nalu_to_prepend(c, &p);
    if (rc != SV_OK) {
      vf_assert(h < hits(), "fetching a SEI succeeds without faults");
      ok = false;
      continue;
    }
    if (p.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING) return ok;
    unit_t u = {0};
    u.d = malloc(p.nalu_data_size);
    memcpy(u.d, p.nalu_data, p.nalu_data_size);
    u.n = p.nalu_data_size;
    u.kind = 'S';
    u.gop = gop;
    signed_video_nalu_data_free(p.nalu_data);
    push(u);
  }
#else
  for (;;) {
    size_t n = 0;
    int h = hits();
    SignedVideoReturnCode rc = signed_video_get_sei(c, NULL, &n, NULL, NULL, 0, NULL);
    if (rc != SV_OK) {
      vf_assert(h < hits(), "fetching a SEI succeeds without faults");
      ok = false;
      continue;
    }
    if (!n) return ok;
    unit_t u = {0};
    u.d = malloc(n);
    u.kind = 'S';
    u.gop = gop;
    rc = signed_video_get_sei(c, u.d, &u.n, NULL, NULL, 0, NULL);
    if (rc != SV_OK) {
      vf_assert(h < hits(), "fetching a SEI succeeds without faults");
      ok = false;
      continue;
    }
    vf_assert(u.n == n, "the announced SEI is delivered");
    push(u);
  }
#endif
}
#ifdef SIGN
void harness(void) {
  ossl_sig_size_fixed = 9;
  unsigned level = LEVEL;
  long b0 = vf_live_blocks, o0 = ossl_live_objects();
  bool complete = true;   // every call so far succeeded
#ifndef WIN
  inject(FAULTS);
#endif
  signed_video_t *c = signed_video_create(CODEC);
  if (!c) {
    vf_assert(hits() > 0, "creating a session succeeds without faults");
    ends(b0, o0);
    vf_reach("no session");
    return;
  }
  const char pem[5] = {'P', 'R', 'I', 'V', KEY};
  int h = hits();
  bool key = signed_video_set_private_key_new(c, pem, 5) == SV_OK;
  vf_assert(key || h < hits(), "setting a private key succeeds without faults");
  complete &= key;
  complete &= signed_video_set_authenticity_level(c, level) == SV_OK;
  complete &= signed_video_set_product_info(c, "hw", "fw", SERIAL, MANUFACTURER, "ad") == SV_OK;
#ifdef ATT
  certs();
  uint8_t a[64];
  size_t an = attestation(a, 'L', KEY, kChip);
  complete &= sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)an, CHAIN) == SV_OK;
#endif
#ifdef HASH
  complete &= signed_video_set_hash_algo(c, HASH) == SV_OK;
#endif
#ifdef GOLDEN
  complete &= signed_video_set_using_golden_sei(c, true) == SV_OK;
  complete &= signed_video_generate_golden_sei(c) == SV_OK;
  complete &= fetch(c, -1);
#endif
  vf_assert(complete || hits() > 0, "setting up a session succeeds without faults");
  uint8_t id = 0x10;
  int bad_gop = -1;
  for (int g = 0; g <= NG; g++) {
#ifdef WIN
    unsigned np = g >= WIN && g <= WIN + 2 ? vf_choice("gop_len", MAXP + 1) : 1;
#else
    unsigned np = g < NG ? vf_choice("gop_len", MAXP + 1) : 0;
#endif
    for (unsigned k = 0; k <= np; k++) {
#ifdef WIN  // including the picture that ends the GOP
      if (g == WIN && k == 0) inject(FAULTS);
      if ((g == WIN + 1 && k == 1) || g == WIN + 2) quiet();
#endif
      unit_t u = mk_unit(CODEC, k ? 'P' : 'I', id++);
      u.gop = g;
      h = hits();
      SignedVideoReturnCode rc = signed_video_add_nalu_for_signing(c, u.d, u.n);
      // The GOP with the fault may be broken. The next one is a new start.
      if (rc != SV_OK) {
        if (h < hits()) bad_gop = g;
        vf_trace("add failed at", (uint64_t)(g * 10 + (int)k));
        vf_assert(!key || (bad_gop >= 0 && (g == bad_gop || (g == bad_gop + 1 && !k))), "signing succeeds without faults");
        complete = false;
      }
      complete &= fetch(c, g - 1);
      push(u);
    }
  }
#ifndef WIN
  h = hits();
  bool ended = signed_video_set_end_of_stream(c) == SV_OK;
  vf_assert(ended || h < hits() || !complete, "ending the stream succeeds without faults");
  complete &= ended;
#endif
  complete &= fetch(c, NG);
  quiet();
  signed_video_free(c);
  ends(b0, o0);
  // What was signed is what was added.
  viewer_t v;
  viewer_init(&v, CODEC);
  int n_sei = 0, last = 0;
  for (int i = 0; i < nU; i++) {
    n_sei += U[i].kind == 'S' && U[i].gop >= 0;
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    if (!r) continue;
    last = r->latest_validation.authenticity;
    vf_trace(r->latest_validation.nalu_str, 0);
    vf_trace(r->latest_validation.validation_str, (uint64_t)last);
    if (complete) {
      vf_assert(last == SV_AUTH_RESULT_OK || (last == SV_AUTH_RESULT_SIGNATURE_PRESENT && v.nrep == 1), "if every call succeeded the stream is authentic");
      vf_assert(eq(r->product_info.firmware_version, "fw") && eq(r->product_info.serial_number, SERIAL) && eq(r->product_info.hardware_id, "hw"), "if every call succeeded the product information is delivered");
    }
  }
  if (complete) vf_assert(n_sei ==
#ifdef WIN
    NG
#else
    NG + 1
#endif
    , "if every call succeeded every GOP is signed");
#ifdef WIN
  vf_assert(last == SV_AUTH_RESULT_OK, "GOPs signed after a fault are authentic");
#endif
  if (complete && hits()) vf_reach("unharmed");
  if (!complete) vf_reach("harmed");
  viewer_free(&v);
  vf_reach("end");
}
#endif

#ifdef SETKEY
#ifndef KEY2
#define KEY2 'B'
#endif
// Replacing the key fails: the session goes on with the key it had.
void harness(void) {
  ossl_sig_size_fixed = 9;
  long b0 = vf_live_blocks, o0 = ossl_live_objects();
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
  uint8_t id = 0x10;
  bool replaced = false;
  unsigned when = vf_choice("when", NG);
  for (int g = 0; g <= NG; g++) {
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    if ((int)when == g) {
      inject(FAULTS);
      const char pem[5] = {'P', 'R', 'I', 'V', KEY2};
      replaced = signed_video_set_private_key_new(c, pem, 5) == SV_OK;
      quiet();
      vf_assert(replaced || hits() > 0, "setting a private key succeeds without faults");
    }
    unsigned np = g < NG ? vf_choice("gop_len", MAXP + 1) : 0;
    for (unsigned k = 0; k < np; k++) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
  }
  signed_video_free(c);
  ends(b0, o0);
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nU; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    vf_assert(v.rc == SV_OK, "the stream can be validated");
    if (r && !replaced) {
      vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK, "a key that could not be set has no effect");
      vf_assert(!r->latest_validation.public_key_has_changed, "a key that could not be set has no effect");
      vf_reach("kept");
    }
  }
  vf_assert(v.nrep == NG, "every GOP is reported");
  if (replaced) vf_reach("replaced");
  viewer_free(&v);
  vf_reach("end");
}
#endif

#ifdef VIEW
static int rank(SignedVideoAuthenticityResult a) { return a == SV_AUTH_RESULT_OK ? 2 : a == SV_AUTH_RESULT_OK_WITH_MISSING_INFO ? 1 : 0; }
void harness(void) {
  ossl_sig_size_fixed = 9;
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
  vf_assert(signed_video_set_product_info(c, "hw", "fw", SERIAL, MANUFACTURER, "ad") == SV_OK, "product info");
#ifdef ATT
  certs();
  uint8_t a[64];
  size_t an = attestation(a, 'L', KEY, kChip);
#ifdef FORGED
  a[12] ^= 1;
#endif
  vf_assert(sv_vendor_axis_communications_set_attestation_report(c, a, (uint8_t)an, CHAIN) == SV_OK, "attestation is accepted");
#endif
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "hash");
#endif
#ifdef GOLDEN
  vf_assert(signed_video_set_using_golden_sei(c, true) == SV_OK, "golden");
  vf_assert(signed_video_generate_golden_sei(c) == SV_OK, "golden SEI");
  cam_fetch(c);
  for (int i = 0; i < nU; i++) U[i].gop = -1;
#endif
#ifdef RECUR
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "recurrence");
#endif
  uint8_t id = 0x10;
  for (int g = 0; g <= NG; g++) {
    int start = nU;
#ifdef INFO2  // the metadata change during the stream
    if (g == INFO2) vf_assert(signed_video_set_product_info(c, "hw-2", "fw-2", SERIAL "2", MANUFACTURER, "ad-2") == SV_OK, "product info");
#endif
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
#ifdef WIN
    unsigned np = g >= WIN && g <= WIN + 2 ? vf_choice("gop_len", MAXP + 1) : 1;
#else
    unsigned np = g < NG ? vf_choice("gop_len", MAXP + 1) : 0;
#endif
    for (unsigned k = 0; k < np; k++) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
  signed_video_free(c);
  int bad = -1;
#ifdef ALTER
  bad = (int)vf_choice("alter", (unsigned)nU);
  vf_assume(is_pic(U[bad].kind) && U[bad].gop < NG);
  U[bad] = copy_unit(U[bad]);
  U[bad].d[U[bad].n - 2] ^= 0x40;
#endif
#ifdef DROP
  {
    int drop = (int)vf_choice("drop", (unsigned)nU);
    vf_assume(drop > 0 && U[drop].kind != 'I');
    for (int i = drop; i + 1 < nU; i++) U[i] = U[i + 1];
    nU--;
  }
#endif
  // Without faults
  signed_video_authenticity_t *want[MAXN] = {0};
  SignedVideoReturnCode want_rc[MAXN];
  signed_video_t *s = signed_video_create(CODEC);
#ifdef GIVEN
  vf_assert(signed_video_set_public_key(s, "-PUBA\n", 6) == SV_OK, "set key");
#endif
  for (int i = 0; i < nU; i++) want_rc[i] = signed_video_add_nalu_and_authenticate(s, U[i].d, U[i].n, &want[i]);
  signed_video_free(s);

  long b0 = vf_live_blocks, o0 = ossl_live_objects();
#if !defined(WIN) && !defined(RESET)
  inject(FAULTS);
#endif
  s = signed_video_create(CODEC);
  if (!s) {
    vf_assert(hits() > 0, "creating a session succeeds without faults");
    ends(b0, o0);
    vf_reach("no session");
    return;
  }
#ifdef RESET
  inject(FAULTS);
#endif
  bool complete = true;
#ifdef GIVEN
  complete &= signed_video_set_public_key(s, "-PUBA\n", 6) == SV_OK;
#endif
  bool noticed = false, refused = false;  // the altered unit was refused with an error
  int last = 0;
  for (int i = 0; i < nU; i++) {
#ifdef WIN
    if (U[i].kind == 'I' && U[i].gop == WIN) inject(FAULTS);
    if (U[i].kind == 'S' && U[i].gop == WIN + 1) quiet();
#endif
    signed_video_authenticity_t *r = NULL, *q = want[i];
    uint8_t *d = malloc(U[i].n);
    memcpy(d, U[i].d, U[i].n);
    SignedVideoReturnCode rc = signed_video_add_nalu_and_authenticate(s, d, U[i].n, &r);
    free(d);
    vf_assert(rc == want_rc[i] || hits() > 0, "validation succeeds without faults");
    if (r) vf_trace(r->latest_validation.validation_str, r->latest_validation.authenticity);
    if (q) vf_trace(q->latest_validation.validation_str, 10 + q->latest_validation.authenticity);
    if (rc != want_rc[i]) complete = false;
    if (rc != want_rc[i] && i == bad) refused = true;
    if (complete) {
#ifdef LEGACY  // the report of a detected signature, if it could not be used
      if (r && !q && r->latest_validation.authenticity == SV_AUTH_RESULT_SIGNATURE_PRESENT) complete = false; else
#endif
      vf_assert((r != NULL) == (q != NULL), "a fault that was not announced has no effect on when reports are given");
      if (r && q) {
        vf_assert(rank(r->latest_validation.authenticity) <= rank(q->latest_validation.authenticity) && rank(r->accumulated_validation.authenticity) <= rank(q->accumulated_validation.authenticity), "a fault does not improve a verdict");
        if (r->latest_validation.authenticity != q->latest_validation.authenticity || strcmp(r->latest_validation.validation_str, q->latest_validation.validation_str)) complete = false;
        else vf_assert(eq(r->product_info.firmware_version, q->product_info.firmware_version), "a fault that was not announced has no effect on the product information");
      }
    }
    if (!r) continue;
    if (complete && q && hits() == 0) vf_assert(r->latest_validation.public_key_validation == q->latest_validation.public_key_validation, "the verdict on the key");
#ifdef FORGED
    vf_assert(r->latest_validation.public_key_validation != SV_PUBKEY_VALIDATION_OK, "a fault does not validate a public key");
#endif
    last = r->latest_validation.authenticity;
    if (bad >= 0 && i > bad) {
      bool mine = false;  // the GOP of the altered unit is validated
      for (int k = 0; k <= i; k++) mine |= U[k].kind == 'S' && U[k].gop == U[bad].gop;
      if (mine && !noticed && !refused) vf_assert(last != SV_AUTH_RESULT_OK || r->accumulated_validation.authenticity == SV_AUTH_RESULT_NOT_OK, "a fault does not make an altered stream authentic");
      noticed |= mine;
    }
    signed_video_authenticity_report_free(r);
  }
#ifdef RESET
  if (signed_video_reset(s) != SV_OK) vf_assert(hits() > 0, "resetting succeeds without faults");
  else {
    quiet();
    vf_reach("reset");
    for (int i = 0; i < nU; i++) {
      signed_video_authenticity_t *r = NULL, *q = want[i];
      vf_assert(signed_video_add_nalu_and_authenticate(s, U[i].d, U[i].n, &r) == want_rc[i], "faults have no effect after a reset");
      vf_assert((r != NULL) == (q != NULL), "faults have no effect after a reset");
      if (r) same_reports(r, q, "faults have no effect after a reset");
      if (r) signed_video_authenticity_report_free(r);
    }
  }
#endif
#ifdef WIN
  vf_assert(last == SV_AUTH_RESULT_OK, "GOPs validated after a fault are authentic");
#endif
  if (hits() && complete) vf_reach("unharmed");
  if (!complete) vf_reach("harmed");
  signed_video_free(s);
  ends(b0, o0);
  vf_reach("end");
}
#endif
