// Any byte of a signature SEI is replaced by any other value on its way to the viewer.
#define CHAN_NO_MAIN
#include "chan.c"
#ifndef LEVEL
#define LEVEL 1
#endif
#ifndef NG
#define NG 3
#endif
#ifndef TARGET
#define TARGET 1   // which SEI
#endif
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 100000
#endif
#ifndef RECUR
#define RECUR 1
#endif
#ifndef WIDTH
#define WIDTH 1
#endif
#ifdef LEGACY  // the first SEI covers only the first picture
#define SIGNED_BY LVERSION
#define COVERS 1
#else
#define SIGNED_BY signed_video_get_version()
#define COVERS 0
#endif
static int find(const uint8_t *h, size_t n, const uint8_t *p, size_t m) {
  for (size_t i = 0; i + m <= n; i++) if (memcmp(h + i, p, m) == 0) return (int)i;
  return -1;
}
static bool text_ok(const char *got, const char *want) { return !got || !got[0] || !strcmp(got, want); }
void harness(void) {
  ossl_sig_size_fixed = SIGSIZE;
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
#ifdef EPB
  vf_assert(signed_video_set_sei_epb(c, EPB) == SV_OK, "set epb");
#endif
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "set recurrence");
  vf_assert(signed_video_set_product_info(c, "hw", "fw", "sn", "mf", "ad") == SV_OK, "product info");
  uint8_t id = 0x10;
  int64_t ts = 0x0102030405060708LL;
  for (int g = 0; g <= NG; g++) {
    int start = nU;
    ts += 0x11;
    cam_add(c, mk_unit(CODEC, 'I', id++), &ts);
    if (g < NG) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
  signed_video_free(c);
  for (int i = 0; i < nU; i++) R[i] = U[i];
  nR = nU;
  int t = -1, nsei = 0;
  for (int i = 0; i < nU; i++) if (U[i].kind == 'S' && nsei++ == TARGET) t = i;
  vf_assert(t >= 0, "a SEI is generated for every GOP");
  // What the signature covers, and where the signature is.
  size_t mlen = 0, slen = 0;
  vf_assert(ossl_num_sigs() == nsei, "every SEI has a signature of its own");
#ifdef LEGACY
  mlen = leg_cut[TARGET] - 4;
#else
  ossl_msg(ossl_sig_msg(TARGET), &mlen);
#endif
  const uint8_t *sg = ossl_sig_bytes(TARGET, &slen);
  int sat = find(U[t].d, U[t].n, sg, slen);
  vf_assert(sat > 0, "the signature is part of the SEI");
  vf_assert(mlen + 4 <= (size_t)sat && (size_t)sat - mlen - 4 <= 16, "everything before the signature is signed");
  R[t] = copy_unit(R[t]);
  R[t].altered = true;
  int lo = LO, hi = HI < (int)U[t].n ? HI : (int)U[t].n;
  vf_assume(lo < hi);
  unsigned off = (unsigned)lo, k = (unsigned)hi - (unsigned)lo;
  while (k > 200) {  // vf_choice is limited to a byte
    if (!vf_choice("upper", 2)) { k = 200; break; }
    off += 200; k -= 200;
  }
  off += vf_choice("offset", k);
#ifdef FAIL
  vf_assume(off == (unsigned)find(U[t].d, U[t].n, (const uint8_t *)FAIL, 2));
#endif
  bool differs = false, covered = false;
  for (unsigned w = 0; w < WIDTH && off + w < U[t].n; w++) {
    uint8_t nv = vf_u8("value");
    if (nv != U[t].d[off + w]) {
      differs = true;
      if (off + w >= 4 && off + w < 4 + mlen) covered = true;
      if (off + w >= (unsigned)sat && off + w < (unsigned)sat + slen) covered = true;
    }
    R[t].d[off + w] = nv;
  }
  vf_assume(differs);
  int at = t;
#ifdef START  // the viewer tunes in right at the tampered SEI
  while (t > 0) { del(0); t--; }
#endif
  int nsince = 0;
  // The reserved byte selects the legacy format, which a session then keeps to.
  unsigned rb = (unsigned)find(U[at].d, U[at].n, (const uint8_t *)"Signed Video...0", 16) + 16;
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nR; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    if (v.rc != SV_OK) vf_trace("rc", (uint64_t)(int64_t)v.rc);
    if (i > t) nsince += R[i].kind == 'S';
    if (nsince > 1 && off != rb && RECUR == 1) vf_assert(v.rc == SV_OK, "a damaged SEI does not make later units fail");
    if (!r) continue;
    check_report(&v);
    signed_video_latest_validation_t *l = &r->latest_validation;
    if (l->authenticity == SV_AUTH_RESULT_OK) {
      vf_assert(text_ok(r->product_info.hardware_id, "hw") && text_ok(r->product_info.firmware_version, "fw") && text_ok(r->product_info.serial_number, "sn") &&
          text_ok(r->product_info.manufacturer, "mf") && text_ok(r->product_info.address, "ad"), "an OK report carries no product information but the signed one");
      vf_assert(!strcmp(r->version_on_signing_side, SIGNED_BY), "an OK report carries the signing version");
    }
    if (l->authenticity == SV_AUTH_RESULT_OK && l->has_timestamp) {
      int64_t d = l->timestamp - 0x0102030405060708LL;
      vf_assert(d > 0 && d <= 0x11 * (NG + 1) && d % 0x11 == 0, "an OK report carries a signed timestamp");
    }
    if (covered && v.n > t) {
      if (i == t) {
        vf_reach("covered");
        vf_assert(l->authenticity != SV_AUTH_RESULT_OK && l->authenticity != SV_AUTH_RESULT_OK_WITH_MISSING_INFO, "a report based on a tampered SEI is not OK");
      }
    }
  }
  if (covered) {
    // Nothing else signs the pictures of this GOP.
    for (int i = 0; i < nR; i++)
      if (is_pic(R[i].kind) && R[i].gop == TARGET - COVERS) vf_assert(v.okst[i] != '.', "pictures whose signature was tampered with are not authentic");
    vf_assert(v.st[t] != '.', "a tampered SEI is not marked authentic");
    if (TARGET > 0 && v.rep) vf_assert(v.rep->accumulated_validation.authenticity != SV_AUTH_RESULT_OK, "the overall verdict notices a tampered SEI");
  }
  check_sound(&v);
#ifdef RECOVER
  vf_reach("recovered");
  vf_assert(v.rep && v.rep->latest_validation.authenticity == SV_AUTH_RESULT_OK, "intact GOPs after a damaged SEI are recognised again");
#endif
  viewer_free(&v);
#ifdef FAIL
  vf_assert(0, "fail");
#endif
  vf_reach("end");
}
