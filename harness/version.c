// Versions: the comparison, and what reports say about the version that signed a stream.
#include "common.h"
#ifdef CMP
// A version whose numbers have 1..DIGITS arbitrary digits
#ifndef DIGITS
#define DIGITS 2
#endif
static char *version(int num[3]) {
  char *s = malloc(3 * DIGITS + 4);
  int k = 0;
  s[k++] = 'v';
  for (int i = 0; i < 3; i++) {
    unsigned nd = 1 + vf_choice("digits", DIGITS);
    num[i] = 0;
    for (unsigned j = 0; j < nd; j++) {
      uint8_t d = vf_u8("digit");
      vf_assume(d < 10);
      num[i] = num[i] * 10 + d;
      s[k++] = (char)('0' + d);
    }
    s[k++] = i < 2 ? '.' : 0;
  }
  return s;
}
void harness(void) {
  int a[3], b[3];
  char *s = version(a), *t = version(b);
  int want = 0;
  for (int i = 2; i >= 0; i--) want = a[i] == b[i] ? want : a[i] > b[i] ? 1 : 2;
  vf_assert(signed_video_compare_versions(s, t) == want, "versions are ordered by major, minor and patch number");
  vf_assert(signed_video_compare_versions(s, NULL) == -1 && signed_video_compare_versions(NULL, s) == -1, "without a version there is nothing to compare");
  vf_assert(signed_video_compare_versions(signed_video_get_version(), signed_video_get_version()) == 0, "the version of the framework is a version");
  free(s);
  free(t);
  vf_reach("end");
}
#endif
#ifdef ANY
void harness(void) {
  char t[] = "v1.2.3";
  unsigned n = vf_choice("length", 8);
  char *x = malloc(n + 1);
  vf_sym(x, n, "text");
  x[n] = 0;
  int i = signed_video_compare_versions(x, t), j = signed_video_compare_versions(t, x);
  vf_assert(i >= -1 && i <= 2, "a documented result");
  vf_assert(j == (i == 1 ? 2 : i == 2 ? 1 : i), "the comparison does not depend on the order");
  if (n < 6) vf_assert(i == -1, "a text that is too short is no version");
  free(x);
  vf_reach("end");
}
#endif
#ifdef REPORT
#ifndef LEVEL
#define LEVEL 1
#endif
#ifndef NG
#define NG 2
#endif
static int find(const uint8_t *h, size_t n, const uint8_t *p, size_t m) {
  for (size_t i = 0; i + m <= n; i++) if (memcmp(h + i, p, m) == 0) return (int)i;
  return -1;
}
static void put(char *d, int *k, unsigned v) {
  if (v >= 100) d[(*k)++] = (char)('0' + v / 100);
  if (v >= 10) d[(*k)++] = (char)('0' + v / 10 % 10);
  d[(*k)++] = (char)('0' + v % 10);
}
void harness(void) {
  ossl_sig_size_fixed = SIGSIZE;
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
  vf_assert(signed_video_set_sei_epb(c, false) == SV_OK, "epb");
  uint8_t ver[3];
  vf_sym(ver, 3, "version");
  uint8_t id = 0x10;
  for (int g = 0; g <= NG; g++) {
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    if (g < NG) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
  }
  signed_video_free(c);
  uint8_t was[3] = {0};
  int at = 0;
  for (const char *p = signed_video_get_version() + 1; *p; p++) {
    if (*p == '.') at++; else was[at] = (uint8_t)(was[at] * 10 + (*p - '0'));
  }
  // The same stream, signed by another version
  int n = ossl_num_sigs(), k = 0;
  for (int i = 0; i < nU; i++) {
    if (U[i].kind != 'S') continue;
    vf_assert(k < n, "every SEI has a signature");
    size_t mlen = 0, slen = 0;
    ossl_msg(ossl_sig_msg(k), &mlen);
    const uint8_t *sg = ossl_sig_bytes(k, &slen);
    int sat = find(U[i].d, U[i].n, sg, slen), vat = find(U[i].d, mlen + 4, was, 3);
    vf_assert(sat > 0 && vat > 0, "a SEI carries version and signature");
    memcpy(U[i].d + vat, ver, 3);
    uint8_t h[64];
    size_t hs = ossl_digest("sha256", U[i].d + 4, mlen, h);
    ossl_sign_digest(KEY, h, hs, U[i].d + sat);
    k++;
  }
  char want[16];
  int m = 0;
  want[m++] = 'v';
  put(want, &m, ver[0]);
  want[m++] = '.';
  put(want, &m, ver[1]);
  want[m++] = '.';
  put(want, &m, ver[2]);
  want[m] = 0;
  bool newer = ver[0] != was[0] ? ver[0] > was[0] : ver[1] != was[1] ? ver[1] > was[1] : ver[2] > was[2];
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = 0; i < nU; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &U[i]);
    vf_assert(v.rc == SV_OK, "a stream of any version can be validated");
    if (!r) continue;
    vf_assert(!strcmp(r->version_on_signing_side, want), "a report names the version that signed the stream");
    vf_assert(!strcmp(r->this_version, signed_video_get_version()), "a report names the version that validates the stream");
  }
  vf_assert(v.rep != NULL, "a report is given");
  SignedVideoAuthenticityResult a = v.rep->latest_validation.authenticity;
  vf_assert(newer || a == SV_AUTH_RESULT_OK, "a stream of the same or an older version is authentic");
  vf_assert(!newer || a == SV_AUTH_RESULT_VERSION_MISMATCH || a == SV_AUTH_RESULT_OK, "an intact stream of a newer version is not judged as altered");
  vf_assert(!newer || a == SV_AUTH_RESULT_VERSION_MISMATCH, "a stream signed by a newer version is reported as such");
  viewer_free(&v);
  vf_reach("end");
}
#endif
