// The threaded signing plugin: every schedule of the worker thread(s) and the caller.
//   (default)  one session with a thread of its own
//   CENTRAL    a common thread for two sessions (1: sv_signing_plugin_init, 2: sv_signing_plugin_init_new)
// OPS: 0/1 add a picture to session 0/1, 2/3 fetch a SEI, 4 wait until the worker is idle, 5/6 close session 0/1 (and open it again), 7 end of stream
#include "seiparse.h"
#include "includes/signed_video_signing_plugin.h"
#ifndef LEVEL
#define LEVEL 0
#endif
#ifndef N
#define N 4
#endif
#ifndef OPS
#define OPS 0, 2
#endif
#ifndef FILL
#define FILL 0
#endif
#ifdef CENTRAL
#define NS 2
#else
#define NS 1
#endif
#if defined(SIGN_FAULTS) || defined(ALLOC)
#define FAULTY 1
#else
#define FAULTY 0
#endif
extern int glib_thread_fails;
static struct { signed_video_t *c; int made, got, lost, gaps, ctr; uint8_t id; bool open, named; int failed; } s[2];
static int sign_faults(void) { return ossl_faults + vf_alloc_failed; }
static void open_session(int k) {
  s[k].c = signed_video_create(CODEC);
  s[k].made = s[k].got = s[k].lost = s[k].gaps = s[k].ctr = 0;
  s[k].open = false;
  if (!s[k].c && vf_alloc_failed) return;
  vf_assert(s[k].c, "a session can be created");
  char pem[5] = {'P', 'R', 'I', 'V', 'A'};
  int b = glib_thread_fails;
  SignedVideoReturnCode rc = signed_video_set_private_key_new(s[k].c, pem, 5);
  if (rc != SV_OK) {
    vf_assert(glib_thread_fails < b || vf_alloc_failed, "a key can be set unless no thread can be started");
    vf_reach("no_thread");
    signed_video_free(s[k].c);
    s[k].c = NULL;
    return;
  }
  vf_assert(signed_video_set_authenticity_level(s[k].c, LEVEL) == SV_OK, "level");
  vf_assert(signed_video_set_product_info(s[k].c, NULL, NULL, k ? "s1" : "s0", NULL, NULL) == SV_OK || vf_alloc_failed, "product info");
  if (!vf_alloc_failed) s[k].named = true;
}
static void close_session(int k) {
  if (s[k].c) signed_video_free(s[k].c);
  s[k].c = NULL;
}
// The SEI is the next one of session k and carries the signature of its own content.
static void check_sei(int k, const uint8_t *d, size_t n) {
  static sei_t e;
  sei_parse(d, n, CODEC, true, &e);
  int t = sei_tlv(&e, 5), p = sei_tlv(&e, 3), g = sei_tlv(&e, 1);
  vf_assert(t >= 0 && p >= 0 && g >= 0, "a SEI is complete");
  size_t at = e.tlv[t].at, mn;
  size_t sn = (size_t)e.raw[at + 3] << 8 | e.raw[at + 4];
  (void)mn;
  size_t hn = (size_t)e.raw[at + 1] << 8 | e.raw[at + 2];
  (void)hn;
  int i = ossl_signed_index(e.raw + at + 5, sn);
  vf_assert(i >= 0, "a SEI carries a genuine signature");
  const uint8_t *msg = ossl_msg(ossl_sig_msg(i), &mn);
  uint8_t x = mn < n - 4 ? 0 : 1;
  for (size_t j = 0; j < mn && mn < n - 4; j++) x |= (uint8_t)(msg[j] ^ d[4 + j]);
  vf_assert(x == 0, "a SEI carries the signature of its own content");
  bool mine = false;
  for (size_t j = 0; j + 1 < e.tlv[p].n; j++) mine |= e.raw[e.tlv[p].at + j] == 's' && e.raw[e.tlv[p].at + j + 1] == '0' + k;
  vf_assert(mine || !s[k].named, "a SEI belongs to the session it is fetched from");
  at = e.tlv[g].at;
  unsigned counter = (unsigned)e.raw[at + 1] << 24 | (unsigned)e.raw[at + 2] << 16 | (unsigned)e.raw[at + 3] << 8 | e.raw[at + 4];
  vf_trace("counter", counter);
  int gap = (int)counter - s[k].ctr - 1;
  vf_assert(gap >= 0, "SEIs are delivered in order");
#if FAULTY
  vf_assert(gap <= s[k].gaps + s[k].failed + sign_faults(), "only SEIs that could not be signed are lost");
  s[k].lost += gap;
#else
  vf_assert(gap <= s[k].gaps, "no SEI is lost");
#endif
  s[k].ctr = (int)counter;
  s[k].got++;
}
static bool fetch(int k) {
  size_t n = 0;
  SignedVideoReturnCode rc = signed_video_get_sei(s[k].c, NULL, &n, NULL, NULL, 0, NULL);
#if FAULTY
  if (rc != SV_OK) { vf_assert(sign_faults() > 0, "a SEI can be fetched unless signing failed"); vf_reach("sign_failed"); return true; }
#endif
  vf_assert(rc == SV_OK, "a SEI can be fetched");
  if (!n) return false;
  uint8_t *d = malloc(n);
  size_t m = 0;
  rc = signed_video_get_sei(s[k].c, d, &m, NULL, NULL, 0, NULL);
#if FAULTY
  if (rc != SV_OK) { vf_assert(sign_faults() > 0, "a SEI can be fetched unless signing failed"); free(d); return true; }
#endif
  vf_assert(rc == SV_OK && m == n, "the announced SEI is delivered");
  check_sei(k, d, n);
  free(d);
  return true;
}
static void add(int k) {
  unit_t u = mk_unit(CODEC, 'I', (uint8_t)(0x10 + (s[k].id++ & 0x3f)));
  SignedVideoReturnCode rc = signed_video_add_nalu_for_signing(s[k].c, u.d, u.n);
  int wait = s[0].made + s[1].made - s[0].got - s[1].got - s[0].lost - s[1].lost;
  if (rc == SV_NOT_SUPPORTED && wait >= 60) s[k].gaps++;
  if (rc == SV_NOT_SUPPORTED && fetch(k)) {  // refused, since completed SEIs wait
    while (fetch(k));
    rc = signed_video_add_nalu_for_signing(s[k].c, u.d, u.n);
    vf_reach("refused");
    wait = s[0].made + s[1].made - s[0].got - s[1].got - s[0].lost - s[1].lost;
    if (rc != SV_OK) s[k].gaps++;
  }
  if (rc != SV_OK) {
    vf_trace("add", (uint64_t)(int64_t)rc);
    vf_assert(wait >= 60 || sign_faults() > 0, "pictures can be added as long as less than 60 SEIs wait");
    vf_reach("full");
    s[k].failed++;
  } else {
    if (s[k].open) s[k].made++;
    s[k].open = true;
  }
  free(u.d);
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  long b0 = vf_live_blocks, o0 = ossl_live_objects();
#ifdef ALLOC
  vf_alloc_fail_budget = 1;
#endif
#ifdef THREAD_FAILS
  glib_thread_fails = 1;
#endif
#ifdef CENTRAL
  pem_pkey_t other = {0};
  other.key = "PRIVB";
  other.key_size = 5;
  for (int round = 0; round <= 1; round++) {
#if CENTRAL == 1
  signature_info_t info = {0};
  info.private_key = "PRIVA";
  info.private_key_size = 5;
  vf_assert(sv_signing_plugin_init(NULL) != 0, "the plugin needs a key");
  int rc = sv_signing_plugin_init(&info);
#else
  pem_pkey_t info = {0};
  info.key = "PRIVA";
  info.key_size = 5;
  vf_assert(sv_signing_plugin_init_new(NULL) != 0, "the plugin needs a key");
  int rc = sv_signing_plugin_init_new(&info);
#endif
  if (rc) {
    vf_assert(!glib_thread_fails || vf_alloc_failed, "the plugin can be started unless no thread can be started");
#if !defined(THREAD_FAILS) && !defined(ALLOC)
    vf_assert(0, "the plugin can be started");
#endif
    vf_reach("no_thread");
    vf_alloc_fail_budget = 0;
    continue;
  }
  vf_assert(sv_signing_plugin_init_new(&other) != 0, "the plugin can be started only once");
  if (round) { sv_signing_plugin_exit(NULL); break; }
#endif
  for (int k = 0; k < NS; k++) open_session(k);
#ifdef SIGN_FAULTS
  ossl_fault_budget = 0;
  ossl_sign_fault_budget = SIGN_FAULTS;
#endif
  for (int i = 0; i < FILL; i++) for (int k = 0; k < NS; k++) add(k);
  static const uint8_t ops[] = {OPS};
  for (int i = 0; i < N; i++) {
    int op = ops[vf_choice("op", sizeof ops)];
    if (op == 4) vf_wait_idle();
    else if (op == 5 || op == 6) { close_session(op - 5); open_session(op - 5); }
    else if (s[op & 1].c) { if (op < 2) add(op); else fetch(op & 1); }
  }
#ifdef DRAIN
  // Once the worker has nothing more to do, every SEI can be fetched.
  // (Signatures of several sessions are delivered in the order requested.)
  for (int turn = 0; turn < 2; turn++) {
    vf_wait_idle();
    for (bool more = true; more;) {
      more = false;
      for (int k = 0; k < NS; k++) more |= s[k].c && fetch(k);
      vf_wait_idle();
    }
    for (int k = 0; k < NS; k++) {
      if (!s[k].c) continue;
#ifdef ALLOC
      if (vf_alloc_failed) continue;
#endif
#if FAULTY
      vf_assert(s[k].made - s[k].got <= sign_faults(), "every SEI but those that could not be signed can be fetched when the worker is idle");
#else
      vf_assert(s[k].got == s[k].made, "every SEI can be fetched when the worker is idle");
#endif
      if (!turn) add(k);
    }
  }
  vf_reach("drained");
#endif
  for (int k = 0; k < NS; k++) close_session(k);
#ifdef CENTRAL
  sv_signing_plugin_exit(NULL);
  }
#endif
  vf_assert(vf_live_blocks == b0, "all memory is freed");
  vf_assert(ossl_live_objects() == o0, "all objects of the cryptographic library are freed");
  vf_reach("end");
}
