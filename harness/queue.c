// The queue of SEIs on the signing side, with a signing plugin that delivers signatures whenever it likes.
#include "seiparse.h"
#include "includes/signed_video_signing_plugin.h"
#ifndef LEVEL
#define LEVEL 0
#endif
#ifndef N
#define N 6
#endif
#ifndef OPS
#define OPS 0, 2, 3
#endif
#ifndef EPB
#define EPB 1
#endif
#define MAXQ 80
// --- the plugin: requests are answered in order, at arbitrary times
static struct { uint8_t hash[64]; size_t n; } req[MAXQ];
static int nreq, nans;          // requests made and answered
static int done[MAXQ], ndone;   // SEIs that are completed and not yet fetched
static bool failed[MAXQ];
static bool error_now;
static bool eager;
static int fails_left = 0;
static char handle;
SignedVideoReturnCode sv_signing_plugin_sign(void *h, const uint8_t *hash, size_t n) {
  vf_assert(h == &handle && hash && (n == 32 || n == 64), "the plugin is asked to sign a digest");
  vf_assert(nreq < MAXQ, "harness: requests");
#ifdef SIGN_FAILS
  if (fails_left > 0 && vf_choice("sign_fails", 2)) { fails_left--; return SV_EXTERNAL_ERROR; }
#endif
  memcpy(req[nreq].hash, hash, n);
  req[nreq].n = n;
  nreq++;
  return SV_OK;
}
bool sv_signing_plugin_get_signature(void *h, uint8_t *s, size_t max, size_t *n, SignedVideoReturnCode *e) {
  vf_assert(h == &handle && s && n && max >= 4, "the plugin is asked for a signature");
  if (e) *e = SV_OK;
  if (nans >= nreq || (!eager && !vf_choice("ready", 2))) return false;
#ifdef FAILS
  if (fails_left > 0) {
    unsigned how = vf_choice("signature_fails", 3);
    if (how) {
      vf_reach("signature_fails");
      fails_left--;
      failed[nans++] = true;
      *n = 0;
      if (how == 2 && e) { *e = SV_EXTERNAL_ERROR; error_now = true; }
      return true;
    }
  }
#endif
  s[0] = 0x51; s[1] = (uint8_t)(nans + 1); s[2] = 0; s[3] = (uint8_t)(nans * 3);
  *n = 4;
  done[ndone++] = nans++;
  return true;
}
void *sv_signing_plugin_session_setup(const void *k, size_t n) { return k && n ? &handle : NULL; }
void sv_signing_plugin_session_teardown(void *h) { vf_assert(!h || h == &handle, "the plugin is closed with its handle"); }
int sv_signing_plugin_init(void *u) { (void)u; return 0; }
int sv_signing_plugin_init_new(void *u) { (void)u; return 0; }
void sv_signing_plugin_exit(void *u) { (void)u; }

static int taken;               // SEIs fetched
static struct { uint8_t *d; size_t n; } got[MAXQ];   // what the SEIs say about the GOP
static struct { char kind; uint8_t id; } lg[2 * MAXQ];    // what was accepted
static int nlg;
static bool comparing, sign_failed;
static void accepted(char k, uint8_t i) { if (!comparing) { lg[nlg].kind = k; lg[nlg++].id = i; } }
static void keep(const sei_t *s, int id) {
  uint8_t b[400];
  size_t n = 0;
  b[n++] = s->reserved;
  for (int tag = 1; tag <= 4; tag += 3) {
    int t = sei_tlv(s, (uint8_t)tag);
    if (t < 0) continue;
    for (size_t i = 0; i < s->tlv[t].n; i++) b[n++] = s->raw[s->tlv[t].at + i];
  }
  vf_bound(n < sizeof b, "gop info");
  if (comparing) {
    vf_assert(n == got[id].n && memcmp(b, got[id].d, n) == 0, "what a SEI says does not depend on when SEIs are fetched");
    vf_reach("compared");
  } else {
    got[id].d = malloc(n);
    memcpy(got[id].d, b, n);
    got[id].n = n;
  }
}
static void check_sei(const uint8_t *d, size_t n, int id) {
  static sei_t s;
  sei_parse(d, n, CODEC, EPB, &s);
  keep(&s, id);
  int t = sei_tlv(&s, 5);
  vf_assert(t >= 0, "a SEI has a signature");
  size_t at = s.tlv[t].at, mn;
  vf_assert(s.raw[at + 3] == 0 && s.raw[at + 4] == 4 && s.raw[at + 5] == 0x51 && s.raw[at + 6] == id + 1 && s.raw[at + 7] == 0 && s.raw[at + 8] == (uint8_t)(id * 3),
      "the SEI delivered is the one in turn and has its own signature");
  if (LEVEL == 1 || 1) {
    int m = ossl_digest_index(req[id].hash, req[id].n);
    vf_assert(m >= 0, "a signed digest is a digest");
    const uint8_t *msg = ossl_msg(m, &mn);
    vf_assert(mn < n - 4, "the SEI carries the signature of its own content");
    uint8_t x = 0;
    for (size_t i = 0; i < mn; i++) x |= (uint8_t)(msg[i] ^ d[4 + i]);
    vf_assert(x == 0, "the SEI carries the signature of its own content");
  }
}
static int alive(void) {        // SEIs neither fetched nor given up
  int a = 0;
  for (int i = 0; i < nans; i++) a += failed[i];
  return nreq - a - taken;
}
static void remove_at(int k) {
  for (int i = k; i + 1 < ndone; i++) done[i] = done[i + 1];
  ndone--;
  taken++;
}
static bool gop_open;
static int unsigned_pics;
static uint8_t id = 1;
static bool refused;
static void expect_state(SignedVideoReturnCode rc) { vf_assert(rc == SV_OK || error_now, "the operation succeeds"); }
static void op_add(signed_video_t *c, char kind) {
  unit_t u = mk_unit(CODEC, kind, id);
  int before = nreq, waiting = ndone, live = alive();
  int fl = fails_left;
  SignedVideoReturnCode rc = signed_video_add_nalu_for_signing_with_timestamp(c, u.d, u.n, NULL);
  if (fl != fails_left) { sign_failed = true; vf_assert(rc != SV_OK, "a failure to sign is reported"); return; }
  if (waiting && !refused) {
    vf_assert(rc == SV_NOT_SUPPORTED, "a picture is refused while SEIs wait to be fetched");
    vf_assert(nreq == before, "a refused picture has no effect");
    return;
  }
  if (kind == 'I' && gop_open && unsigned_pics && live >= 60) {
    vf_assert(rc == SV_NOT_SUPPORTED && nreq == before, "a picture is refused when too many SEIs are waiting");
    vf_reach("full");
    return;
  }
  if (rc != SV_OK) { vf_assert(waiting, "a picture is accepted"); vf_assert(nreq == before, "a refused picture has no effect"); return; }
  if (!sign_failed) vf_assert(nreq == before + (kind == 'I' && gop_open && unsigned_pics > 0), "a SEI is made for every completed GOP");
  if (kind == 'I') { gop_open = true; unsigned_pics = 0; }
  unsigned_pics++;
  accepted(kind, id++);
}
static void op_get(signed_video_t *c, char peek, bool fetch) {
  unit_t p = {0};
  if (peek) p = mk_unit(CODEC, peek, 0x70);
  static uint8_t buf[2000];
  size_t n = 99;
  int off = 77;
  unsigned pend = 99;
  error_now = false;
  SignedVideoReturnCode rc = signed_video_get_sei(c, fetch ? buf : NULL, &n, &off, p.d, p.n, &pend);
  if (error_now) { vf_assert(rc != SV_OK && n == 0, "a failed signature is reported"); return; }
  vf_assert(rc == SV_OK, "asking for a SEI succeeds");
  bool barred = peek && peek != 'I' && peek != 'P';
  if (ndone && barred) refused = true;
  if (!ndone || barred) {
    vf_assert(n == 0, "no SEI is delivered when none is available");
    return;
  }
  vf_assert(n > 0, "an available SEI is delivered");
  if (fetch) {
    check_sei(buf, n, done[0]);
    sei_t s;
    sei_parse(buf, n, CODEC, EPB, &s);
    vf_assert(off == (int)s.off, "the offset to the payload is right");
    remove_at(0);
    vf_assert((int)pend == alive(), "the number of pending SEIs is right");
    vf_reach("fetched");
  } else {
    size_t m = 0;
    eager = false;
    // The size announced is the size of what is delivered next.
    rc = signed_video_get_sei(c, buf, &m, NULL, p.d, p.n, &pend);
    if (error_now) return;
    vf_assert(rc == SV_OK && m == n, "the announced SEI is delivered");
    check_sei(buf, m, done[0]);
    remove_at(0);
    vf_assert((int)pend == alive(), "the number of pending SEIs is right");
  }
}
static void op_query(signed_video_t *c) {
  size_t n = 99;
  unsigned pend = 99;
  error_now = false;
  int a = alive(), k = nans;
  SignedVideoReturnCode rc = signed_video_get_sei(c, NULL, &n, NULL, NULL, 0, &pend);
  if (error_now) { vf_assert(rc != SV_OK && n == 0, "a failed signature is reported"); return; }
  vf_assert(rc == SV_OK && (n > 0) == (ndone > 0), "a size is announced exactly when a SEI is available");
  bool f = false;
  for (; k < nans; k++) f |= failed[k];
  if (!f) vf_assert((int)pend == a, "the number of pending SEIs is right");
}
static void op_prepend(signed_video_t *c) {
  signed_video_nalu_to_prepend_t p;
  error_now = false;
  SignedVideoReturnCode rc = signed_video_get_nalu_to_prepend(c, &p);
  if (error_now) { vf_assert(rc != SV_OK, "a failed signature is reported"); if (p.nalu_data) signed_video_nalu_data_free(p.nalu_data); return; }
  vf_assert(rc == SV_OK, "asking for a unit to prepend succeeds");
  if (!ndone) { vf_assert(p.prepend_instruction == SIGNED_VIDEO_PREPEND_NOTHING && !p.nalu_data, "nothing to prepend when no SEI is available"); return; }
  vf_assert(p.prepend_instruction == SIGNED_VIDEO_PREPEND_NALU && p.nalu_data, "an available SEI is delivered");
  // The latest comes first, since every further one is put in front of it.
  check_sei(p.nalu_data, p.nalu_data_size, done[ndone - 1]);
  remove_at(ndone - 1);
  signed_video_nalu_data_free(p.nalu_data);
}
static void op_eos(signed_video_t *c) {
  int waiting = ndone, before = nreq;
  error_now = false;
  SignedVideoReturnCode rc = signed_video_set_end_of_stream(c);
  if (nreq > before && error_now) { unsigned_pics = 0; accepted('E', 0); }
  if (error_now) { vf_assert(rc != SV_OK, "a failed signature is reported"); return; }
  if (waiting && !refused) { vf_assert(rc == SV_NOT_SUPPORTED && nreq == before, "ending is refused while SEIs wait to be fetched"); return; }
  if (rc == SV_OK) {
    vf_assert(nreq == before + (unsigned_pics > 0), "ending the stream makes a SEI when there is something to sign");
    unsigned_pics = 0;
    accepted('E', 0);
  }
  else vf_assert(waiting, "ending the stream succeeds");
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
  vf_assert(signed_video_set_sei_epb(c, EPB) == SV_OK, "set epb");
#if defined(FAILS) || defined(SIGN_FAILS)
  fails_left = 1;
#endif
#ifdef FILL  // so many completed GOPs while the plugin is blocked
  for (int g = 0; g < FILL; g++) op_add(c, 'I');
  eager = true;
#else
  op_add(c, 'I');
#endif
  static const int ops[] = {OPS};
  for (int k = 0; k < N; k++) {
    vf_trace("queue", (uint64_t)(nreq * 100 + ndone));
    switch (ops[vf_choice("operation", sizeof ops / sizeof *ops)]) {
      case 0: op_add(c, 'I'); break;
      case 1: op_add(c, 'P'); break;
      case 2: op_query(c); break;
      case 3: op_get(c, 0, true); break;
      case 4: op_get(c, 'P', true); break;
      case 5: op_get(c, 'v', true); break;
      case 6: op_get(c, 'p', true); break;
      case 7: op_prepend(c); break;
      case 8: op_eos(c); break;
      case 11: while (nans < nreq || ndone) op_get(c, 0, true); break;
      case 9: op_get(c, 'I', false); break;
      case 10: op_get(c, 0, false); break;
    }
  }
  // In the end everything can be fetched.
  eager = true;
  for (int i = 0; i < 2 * MAXQ && (nans < nreq || ndone); i++) op_get(c, 0, true);
  vf_assert(nans == nreq && ndone == 0 && alive() == 0, "every SEI is delivered");
  size_t n = 1;
  vf_assert(signed_video_get_sei(c, NULL, &n, NULL, NULL, 0, NULL) == SV_OK && n == 0, "nothing is delivered twice");
  signed_video_free(c);
#ifdef COMPARE
  if (!sign_failed) {
    // The same pictures, with every SEI fetched at once, give SEIs that say the same.
    bool lost[MAXQ];
    memcpy(lost, failed, sizeof lost);
    comparing = true;
    nreq = nans = ndone = taken = fails_left = 0;
    gop_open = refused = error_now = false;
    unsigned_pics = 0;
    memset(failed, 0, sizeof failed);
    c = camera(CODEC, LEVEL, KEY);
    vf_assert(signed_video_set_sei_epb(c, EPB) == SV_OK, "set epb");
    for (int i = 0; i < nlg; i++) {
      id = lg[i].id;
      if (lg[i].kind == 'E') op_eos(c); else op_add(c, lg[i].kind);
      while (ndone || nans < nreq) {
        size_t m = 0;
        static uint8_t buf[2000];
        vf_assert(signed_video_get_sei(c, buf, &m, NULL, NULL, 0, NULL) == SV_OK && m, "an available SEI is delivered");
        if (!lost[done[0]]) check_sei(buf, m, done[0]);
        remove_at(0);
      }
    }
    signed_video_free(c);
  }
#endif
  vf_reach("end");
}
