// A session that was reset behaves like a new one; sessions do not influence each other.
#define CHAN_NO_MAIN
#include "chan.c"
#ifndef LEVEL
#define LEVEL vf_choice("level", 2)
#endif
#ifndef NG
#define NG 3
#endif
#ifndef MAXP
#define MAXP 1
#endif
#ifndef RECUR
#define RECUR 1
#endif
static uint8_t id = 0x10;
static void shoot(signed_video_t *c, int ng, bool eos) {
  for (int g = 0; g <= ng; g++) {
    int start = nU;
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    unsigned np = g < ng ? vf_choice("gop_len", MAXP + 1) : 0;
    for (unsigned k = 0; k < np; k++) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
  if (eos) cam_eos(c);
}
static signed_video_t *cam(void) {
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "recurrence");
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "hash");
#endif
  return c;
}
#ifdef VIEW
static void both(viewer_t *v, viewer_t *w, unit_t *u) {
  signed_video_authenticity_t *r = viewer_feed(v, u), *q = viewer_feed(w, u);
  vf_assert(v->rc == w->rc, "a reset session returns what a new one returns");
  vf_assert((r != NULL) == (q != NULL), "a reset session reports when a new one reports");
  if (r) {
    vf_reach("report");
    vf_trace(r->latest_validation.validation_str, r->latest_validation.authenticity);
    vf_trace(q->latest_validation.validation_str, q->latest_validation.authenticity);
    same_reports(r, q, "a reset session reports what a new one reports");
    if (r->latest_validation.authenticity == SV_AUTH_RESULT_OK) vf_reach("ok");
  }
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  signed_video_t *c = cam();
  shoot(c, NG, false);
  signed_video_free(c);
  viewer_t v, w;
  viewer_init(&v, CODEC);
  viewer_init(&w, CODEC);
  int a = (int)vf_choice("upto", (unsigned)nU + 1);
  int drop = -1;
#ifdef DROP  // what was seen before the reset was incomplete or manipulated
  drop = (int)vf_choice("drop", (unsigned)nU);
  bool alter = vf_choice("alter", 2);
#endif
  for (int i = 0; i < a; i++) {
    unit_t u = U[i];
#ifdef DROP
    if (i == drop) {
      if (!alter) continue;
      u = copy_unit(u);
      u.d[u.n - 2] ^= 1;
    }
#endif
    viewer_feed(&v, &u);
  }
  vf_assert(signed_video_reset(v.sv) == SV_OK, "reset succeeds");
  memset(v.st, 0, sizeof v.st);
  v.n = 0;
  if (v.rep) signed_video_authenticity_report_free(v.rep);
  v.rep = NULL;
#ifdef TWICE
  vf_assert(signed_video_reset(v.sv) == SV_OK, "reset succeeds");
#endif
  int b = (int)vf_choice("from", (unsigned)nU);
#ifdef OTHER  // another stream of the same camera model
  int n0 = nU;
  c = camera(CODEC, vf_choice("level2", 2), KEY);
#ifdef HASH2
  vf_assert(signed_video_set_hash_algo(c, HASH2) == SV_OK, "hash");
#endif
  id = 0x80;
  shoot(c, 2, false);
  signed_video_free(c);
  for (int i = n0; i < nU; i++) U[i - n0] = U[i];
  nU -= n0;
  vf_assume(b < nU);
#endif
  for (int i = b; i < nU; i++) both(&v, &w, &U[i]);
  viewer_free(&v);
  viewer_free(&w);
  vf_reach("end");
}
#endif
#ifdef SIGN
void harness(void) {
  ossl_sig_size_fixed = 9;
  signed_video_t *c = cam();
  // Up to a point of the first stream
  unsigned pre = vf_choice("before", 6);
  for (unsigned k = 0; k < pre; k++) cam_add(c, mk_unit(CODEC, k % 2 ? 'P' : 'I', id++), NULL);
  if (vf_choice("part", 2)) {  // with a unit half way
    unit_t u = mk_unit(CODEC, "IP"[vf_choice("part_kind", 2)], id++);
    vf_assert(signed_video_add_nalu_part_for_signing_with_timestamp(c, u.d, u.n - 2, NULL, false) == SV_OK, "part");
  }
  if (vf_choice("eos", 2)) cam_eos(c);
  vf_assert(signed_video_reset(c) == SV_OK, "reset succeeds");
  int n0 = nU, s0 = ossl_num_sigs();
  id = 0x80;
  unsigned lens[2] = {vf_choice("len0", MAXP + 1), vf_choice("len1", MAXP + 1)};
  for (int g = 0; g <= 2; g++) {
    cam_add(c, mk_unit(CODEC, 'I', id++), NULL);
    for (unsigned k = 0; g < 2 && k < lens[g]; k++) cam_add(c, mk_unit(CODEC, 'P', id++), NULL);
  }
  cam_eos(c);
  signed_video_free(c);
  vf_assert(ossl_num_sigs() - s0 == 3, "after a reset every GOP is signed, once");
  // The new stream is authentic on its own.
  viewer_t v;
  viewer_init(&v, CODEC);
  for (int i = n0; i < nU; i++) {
    viewer_feed(&v, &U[i]);
    vf_assert(v.rc == SV_OK, "validation succeeds");
    vf_assert(!v.rep || v.rep->latest_validation.authenticity == SV_AUTH_RESULT_OK, "a stream signed after a reset is authentic");
  }
  vf_assert(v.n_ok == 3, "a stream signed after a reset is validated as a whole");
  viewer_free(&v);
  vf_reach("end");
}
#endif
#ifdef LEGACY  // a legacy stream has one more report, of its first picture
#define PAIR_OK 3
#else
#define PAIR_OK 2
#endif
#ifdef PAIR  // two sessions, interleaved in any way: each does what it does alone
void harness(void) {
  ossl_sig_size_fixed = 9;
  signed_video_t *c = camera(CODEC, vf_choice("level", 2), 'A'), *d = camera(CODEC, vf_choice("level2", 2), 'B');
  unit_t A[MAXN], B[MAXN];
  int na = 0, nb = 0;
  // Cameras: A is served first or second at every step
  for (int k = 0; k < 5; k++) {
    unsigned first = k < 2 ? vf_choice("first", 2) : 0;
    for (unsigned t = 0; t < 2; t++) {
      bool isA = (t == 0) == (first == 0);
      nU = 0;
      cam_add(isA ? c : d, mk_unit(CODEC, k % 2 ? 'P' : 'I', (uint8_t)(k + (isA ? 0x10 : 0x50))), NULL);
      for (int i = 0; i < nU; i++) if (isA) A[na++] = U[i]; else B[nb++] = U[i];
    }
  }
  signed_video_free(c);
  signed_video_free(d);
  // Viewers: B's viewer is fed all of B after |at| units of A; the B stream is altered or not
  bool alter = vf_choice("alter", 2);
  viewer_t v, w;
  viewer_init(&v, CODEC);
  viewer_init(&w, CODEC);
  int ib = 0;
  for (int i = 0; i < na; i++) {
    unsigned k = i + 1 == na ? (unsigned)(nb - ib) : 2 * vf_choice("feed_b", 2);
    for (; k && ib < nb; k--, ib++) {
      unit_t u = B[ib];
      if (alter && ib == 1) { u = copy_unit(u); u.d[u.n - 2] ^= 1; }
      viewer_feed(&w, &u);
    }
    viewer_feed(&v, &A[i]);
    vf_assert(v.rc == SV_OK && (!v.rep || v.rep->latest_validation.authenticity == SV_AUTH_RESULT_OK), "another session has no influence");
  }
  vf_assert(v.n_ok == PAIR_OK && v.rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK, "the stream is authentic");
  vf_assert(alter ? w.n_ok < PAIR_OK : w.n_ok == PAIR_OK, "the other stream is judged on its own");
  viewer_free(&v);
  viewer_free(&w);
  vf_reach("end");
}
#endif
