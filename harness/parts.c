// Units given in parts, with or without start codes and trailing zeros, and after refusals, are signed like whole ones; and both
// sides agree on what is a picture.
#define CHAN_NO_MAIN
#include "chan.c"
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 2
#endif
#ifndef EPB
#define EPB 0
#endif
#define HDR (CODEC == SV_CODEC_H264 ? 1 : 2)
static unit_t form(unit_t u, unsigned f, unsigned zeros) {  // f: bytes of start code, of which 5 stands for 4
  unit_t r = u;
  size_t sc = f;
  r.n = u.n - 4 + sc + zeros;
  r.d = malloc(r.n);
  for (size_t i = 0; i < sc; i++) r.d[i] = i + 1 == sc;
  memcpy(r.d + sc, u.d + 4, u.n - 4);
  for (unsigned i = 0; i < zeros; i++) r.d[r.n - 1 - i] = 0;
  return r;
}
static unsigned pick_form(const char *name) { static const unsigned f[] = {4, 3, 0}; return f[vf_choice(name, 3)]; }
static unit_t L[MAXN];
static int nL;
static void stream(void) {
  uint8_t id = 0x10;
  for (int g = 0; g <= NG; g++) {
    L[nL++] = mk_unit(CODEC, 'I', id++);
    if (g < NG) L[nL++] = mk_unit(CODEC, 'P', id++);
  }
}
#if defined(PARTS) || defined(FORMS)
static void add_parts(signed_video_t *c, unit_t u, int pos, bool target) {
  SignedVideoReturnCode rc;
#ifdef PARTS
  unsigned np = target ? 1 + vf_choice("parts", PARTS) : 1, sc = (unsigned)u.n;
  unsigned a = np > 1 ? 4 + (unsigned)HDR + 1 + vf_choice("split", sc - 4 - (unsigned)HDR - 1) : sc;
  unsigned b = np > 2 ? a + 1 + vf_choice("split2", sc - a) : sc;
  if (b > sc) b = sc;
  if (np == 3) vf_assume(b < sc);
  size_t from[3] = {0, a, b}, to[3] = {np > 1 ? a : sc, np > 2 ? b : sc, sc};
#else
  unsigned np = 1;
  size_t from[3] = {0}, to[3] = {u.n};
  unit_t w = target ? form(u, pick_form("form"), vf_choice("zeros", 3)) : u;
  to[0] = w.n;
  u = w;
#endif
  for (unsigned p = 0; p < np; p++) {
    // Every part in a buffer of its own
    size_t n = to[p] - from[p];
    uint8_t *d = malloc(n);
    memcpy(d, u.d + from[p], n);
    size_t q = 0;
#ifdef REFUSE
    signed_video_get_sei(c, NULL, &q, NULL, NULL, 0, NULL);
    if (q) {
      rc = signed_video_add_nalu_part_for_signing_with_timestamp(c, d, n, NULL, p + 1 == np);
      vf_assert(rc == SV_NOT_SUPPORTED, "a unit is refused while SEIs wait to be fetched");
      vf_reach("refused");
      cam_fetch(c);
    }
#endif
    rc = signed_video_add_nalu_part_for_signing_with_timestamp(c, d, n, NULL, p + 1 == np);
    vf_assert(rc == SV_OK, "signing a valid unit succeeds");
    memset(d, 0xee, n);
    free(d);
  }
#ifndef REFUSE
  cam_fetch(c);
#endif
  u.signed_pos = pos;
  push(u);
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  stream();
  unsigned level = LEVEL, epb = EPB;
  signed_video_t *a = camera(CODEC, level, KEY), *c = camera(CODEC, level, KEY);
  vf_assert(signed_video_set_sei_epb(a, epb) == SV_OK && signed_video_set_sei_epb(c, epb) == SV_OK, "set epb");
  int t = (int)vf_choice("target", (unsigned)nL);
#ifdef ZEROS
  for (size_t i = 4 + HDR + 1; i + 1 < L[t].n; i++) if (vf_choice("zero", 2)) L[t].d[i] = 0;
#endif
  for (int i = 0; i < nL; i++) cam_add(a, L[i], NULL);
  int na = ossl_num_sigs();
  nU = 0;
  for (int i = 0; i < nL; i++) add_parts(c, L[i], i, i == t
#ifdef TWO
    || i == t + 1
#endif
    );
  cam_fetch(c);
  signed_video_free(a);
  signed_video_free(c);
  vf_assert(ossl_num_sigs() == 2 * na, "as many signatures as for whole units");
  for (int i = 0; i < na; i++) vf_assert(ossl_sig_msg(i) == ossl_sig_msg(na + i), "what is signed does not depend on how units are handed over");
#if defined REFUSE || defined ZEROS  // SEIs come one unit later here, or the stream is the same
  vf_reach("end");
  return;
#endif
  viewer_t v;
  viewer_init(&v, CODEC);
  int tv = (int)vf_choice("view_target", (unsigned)nU);
  for (int i = 0; i < nU; i++) {
    unit_t u = U[i];
#ifdef FORMS
    // Any unit may arrive in another form than it was signed in.
    if (i == tv) u = form(u.kind == 'S' ? u : L[u.signed_pos], pick_form("view_form"), vf_choice("view_zeros", 3));
#else
    (void)tv;
#endif
    signed_video_authenticity_t *r = viewer_feed(&v, &u);
    vf_assert(v.rc == SV_OK, "validating an authentic unit succeeds");
    if (r) vf_assert(r->latest_validation.authenticity == SV_AUTH_RESULT_OK, "an authentic stream is reported OK");
  }
  vf_assert(v.n_ok == NG, "every GOP is reported OK");
  viewer_free(&v);
  vf_reach("end");
}
#else
// CLASS: a unit with an arbitrary header within a stream.
static bool picture(const uint8_t *h) {
  if (CODEC == SV_CODEC_H264) { unsigned t = h[0] & 31; return t == 1 || t == 5; }
  unsigned t = h[0] >> 1 & 63;
  return t == 0 || t == 1 || (t >= 16 && t <= 21);
}
static bool gop_start(const uint8_t *h) {
  if (CODEC == SV_CODEC_H264) return (h[0] & 31) == 5 && (h[1] & 0x80);
  unsigned t = h[0] >> 1 & 63;
  return t >= 16 && t <= 21 && (h[2] & 0x80);
}
// What the standards require of the header
static bool correct(const uint8_t *h) {
  if (h[0] & 0x80) return false;
  if (CODEC == SV_CODEC_H264) {
    unsigned t = h[0] & 31, ref = h[0] & 0x60;
    return t == 1 || (t == 5 && ref) || (t >= 2 && t <= 4) || (t == 6 && !ref) || ((t == 7 || t == 8 || t == 13 || t == 15) && ref) || t == 9 || (t >= 10 && t <= 12 && !ref);
  }
  unsigned t = h[0] >> 1 & 63, layer = (h[0] & 1u) << 5 | h[1] >> 3, tid = h[1] & 7;
  if (!tid) return false;
  if (t <= 1 || t == 34 || t == 35 || (t >= 38 && t <= 40)) return true;
  if (t <= 3 || (t >= 6 && t <= 9)) return tid > 1;
  if (t <= 5) return layer || tid > 1;
  if ((t >= 16 && t <= 21) || t == 32 || t == 33) return tid == 1;
  if (t == 36 || t == 37) return tid == 1 && layer == 0;
  return false;
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  stream();
  unit_t x = {0};
  x.n = 4 + (size_t)HDR + 2;
  x.d = malloc(x.n);
  x.kind = 'x';
  vf_sym(x.d + 4, (size_t)HDR + 1, "header");
  x.d[0] = x.d[1] = x.d[2] = 0; x.d[3] = 1;
  x.d[x.n - 1] = 0x80;
  vf_assume(correct(x.d + 4));
  bool pic = picture(x.d + 4), gs = gop_start(x.d + 4);
  unsigned level = LEVEL;
  int at = 1 + (int)vf_choice("at", 3);
  signed_video_t *c = camera(CODEC, level, KEY);
  for (int i = 0; i < nL; i++) {
    if (i == at) {
      int before = nU;
      cam_add(c, x, NULL);
      vf_assert((nU - before == 2) == gs, "a GOP starts at the first slice of an intra picture and nowhere else");
    }
    cam_add(c, L[i], NULL);
  }
  signed_video_free(c);
  unsigned mode = vf_choice("mode", 3);
  viewer_t v;
  viewer_init(&v, CODEC);
  int xi = -1;
  for (int i = 0; i < nU; i++) {
    unit_t u = U[i];
    if (u.kind == 'x') {
      if (mode == 1) continue;
      if (mode == 2) { u = copy_unit(u); u.d[u.n - 1] = 0x81; }
      xi = v.n;
    }
    viewer_feed(&v, &u);
    vf_assert(v.rc == SV_OK, "validating a unit succeeds");
  }
  vf_assert(v.rep != NULL, "there is a report");
  if (mode == 0) {
    vf_assert(v.n_ok == NG + gs && v.nrep == NG + gs, "an authentic stream is reported OK");
    vf_assert((v.st[xi] == '.') == pic, "a picture is covered by a signature and other units are not");
  } else if (pic && !gs) {
    vf_assert(v.nrep > v.n_ok, "a picture that is lost or altered is noticed");
    if (mode == 2) vf_assert(v.okst[xi] != '.', "an altered picture is not authentic");
  } else if (!pic) vf_assert(v.n_ok == NG && v.nrep == NG, "units that are not pictures do not affect the verdict");
  viewer_free(&v);
  vf_reach("end");
}
#endif
