// A signed stream passes through a channel that performs NOPS arbitrary operations on it. Whatever the channel
// did, the viewer's reports may only vouch for what the camera signed.
#include "chan.h"
unit_t R[MAXN];
int nR;
void ins(int at, unit_t u) {
  for (int i = nR; i > at; i--) R[i] = R[i - 1];
  R[at] = u;
  nR++;
}
void del(int at) {
  for (int i = at; i + 1 < nR; i++) R[i] = R[i + 1];
  nR--;
}
int pick(const char *name, int lo, int hi, char cls) {
  int idx[MAXN], k = 0;
  for (int i = lo; i < hi; i++)
    if (cls == '*' || (cls == 'p' && is_pic(R[i].kind)) || (cls == 'S' && R[i].kind == 'S')) idx[k++] = i;
  vf_assume(k > 0);
  return idx[vf_choice(name, (unsigned)k)];
}
bool same(unit_t a, unit_t b) {
  // Trailing zero bytes are not part of a unit.
  while (a.n && a.d[a.n - 1] == 0) a.n--;
  while (b.n && b.d[b.n - 1] == 0) b.n--;
  if (a.n != b.n) return false;
  uint8_t x = 0;
  for (size_t i = 0; i < a.n; i++) x |= (uint8_t)(a.d[i] ^ b.d[i]);
  return x == 0;
}
void check_report(viewer_t *v) {
  vf_trace(v->rep->latest_validation.nalu_str, (uint64_t)v->rep->accumulated_validation.authenticity);
  vf_trace(v->rep->latest_validation.validation_str, (uint64_t)v->rep->latest_validation.authenticity);
  if (v->rep->latest_validation.authenticity != SV_AUTH_RESULT_OK) return;
  vf_reach("ok_report");
#ifndef LEGACY  // legacy streams are judged by their marks and the overall verdict only
  // Every GOP whose signature the report marks authentic is complete and authentic.
  for (int i = 0; i < v->n; i++) {
    if (R[i].kind != 'S' || v->fin[i] != '.' || !v->fresh[i] || R[i].altered) continue;
    for (int q = 0; q < nU; q++) {
      if (!is_pic(U[q].kind) || U[q].gop != R[i].gop) continue;
      bool got = false;
      for (int k = 0; k < v->n; k++)
        if (is_pic(R[k].kind) && v->st[k] == '.' && same(R[k], U[q])) { got = true; break; }
      vf_assert(got, "an OK report vouches only for GOPs received in full");
    }
  }
#endif
}
void check_sound(viewer_t *v) {
  int p = 0;
  for (int i = 0; i < v->n; i++) {
    if (!is_pic(R[i].kind) || v->st[i] != '.') continue;
    int q = p;
    while (q < nU && !(is_pic(U[q].kind) && same(U[q], R[i]))) q++;
#ifdef GOPS_MOVED
    // Whole GOPs with their signatures were moved. Their units may be recognised, but not vouched for together.
    if (q == nU && p < nU && v->n_notok) for (q = 0; q < nU && !(is_pic(U[q].kind) && same(U[q], R[i]));) q++;
#endif
    vf_assert(q < nU, "units reported authentic appear in the signed stream in the same order, each at most once");
    p = q + 1;
  }
  if (!v->rep || v->rep->accumulated_validation.authenticity != SV_AUTH_RESULT_OK) return;
  vf_reach("acc_ok");
  int last = -1;
  bool hole = false;
  p = 0;
  for (int i = 0; i < v->n; i++) {
    if (!is_pic(R[i].kind)) continue;
    if (v->okst[i] != '.') { hole = true; continue; }
    int q = p;
    while (q < nU && !(is_pic(U[q].kind) && same(U[q], R[i]))) q++;
    if (last >= 0) {
      vf_assert(!hole, "a stream reported OK has no foreign pictures between authentic ones");
      for (int k = last + 1; k < q; k++) vf_assert(!is_pic(U[k].kind), "a stream reported OK has no missing pictures between authentic ones");
    }
    hole = false;
    last = q;
    p = q + 1;
  }
}
// All signatures arrived, and the first picture that differs from what was signed lies in GOP 1..last: then the
// viewer must have said so.
void check_flagged(viewer_t *v, int last) {
  int i = 0, q = 0;
  for (;; i++, q++) {  // all SEIs, in order
    while (i < nR && R[i].kind != 'S') i++;
    while (q < nU && U[q].kind != 'S') q++;
    if (i >= nR || q >= nU) break;
    if (!same(R[i], U[q])) return;
  }
  if (i < nR || q < nU) return;
  if (!same(R[nR - 1], U[nU - 1])) return;  // the last GOP start has to arrive to trigger the last validation
  for (i = 0, q = 0;; i++, q++) {
    while (i < nR && !is_pic(R[i].kind)) i++;
    while (q < nU && !is_pic(U[q].kind)) q++;
    if (i >= nR || q >= nU) break;
    if (!same(R[i], U[q])) break;
  }
  if (q >= nU || U[q].gop < 1 || U[q].gop > last) return;
  vf_reach("flagged");
  vf_assert(v->n_notok + v->n_missing_info > 0, "a change of the signed pictures is flagged in a report");
  vf_assert(v->rep->accumulated_validation.authenticity == SV_AUTH_RESULT_NOT_OK || v->rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK_WITH_MISSING_INFO,
      "a change of the signed pictures stays flagged in the overall verdict");
}
#ifndef CHAN_NO_MAIN
#ifndef LEVEL
#define LEVEL SV_AUTHENTICITY_LEVEL_FRAME
#endif
#ifndef NG
#define NG 3
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef OPA
#define OPA 0
#endif


static void operate(unsigned op) {
  int j, k;
  unit_t u, t;
  switch (op) {
    case 0:  // modify one byte of a picture unit
      j = pick("target", 0, nR, 'p');
      R[j] = copy_unit(R[j]);
      {
        unsigned off = 4 + vf_choice("offset", (unsigned)R[j].n - 4);
        uint8_t nv = vf_u8("value");
        vf_assume(nv != R[j].d[off]);
        R[j].d[off] = nv;
      }
      R[j].altered = true;
      break;
    case 1: del(pick("target", 0, nR, 'p')); break;
    case 2:  // insert a forged picture unit
      j = (int)vf_choice("at", (unsigned)nR + 1);
      u = mk_unit(CODEC, "IPip"[vf_choice("kind", 4)], vf_u8("value"));
      u.altered = true;
      u.gop = -1;
      ins(j, u);
      break;
    case 3:  // swap
      j = pick("target", 0, nR, '*');
      k = pick("other", j + 1, nR, '*');
#ifdef RECOVER  // see known_findings.json for reordered SEIs and starts of GOPs
      vf_assume(is_pic(R[j].kind) && R[j].kind != 'I' && is_pic(R[k].kind) && R[k].kind != 'I');
#endif
      t = R[j]; R[j] = R[k]; R[k] = t;
      break;
    case 4:  // replay a picture unit elsewhere
      j = pick("target", 0, nR, 'p');
      k = (int)vf_choice("at", (unsigned)nR + 1);
      ins(k, copy_unit(R[j]));
      break;
    case 5:  // substitute one unit for another
      j = pick("target", 0, nR, 'p');
      k = pick("source", 0, nR, 'p');
      vf_assume(k != j);
      R[j] = R[k];
      break;
    case 6: del(pick("target", 0, nR, 'S')); break;
    case 7:  // replay a SEI elsewhere
      j = pick("target", 0, nR, 'S');
      k = (int)vf_choice("at", (unsigned)nR + 1);
      ins(k, copy_unit(R[j]));
      break;
    case 8: {  // lose a contiguous range
      j = (int)vf_choice("at", (unsigned)nR);
      unsigned n = 2 + vf_choice("count", 4);
      vf_assume(j + (int)n <= nR);
      while (n--) del(j);
      break;
    }
    case 9: {  // lose all pictures of one GOP, keeping its SEI
      unsigned g = vf_choice("gop", NG);
      for (int i = nR - 1; i >= 0; i--) if (is_pic(R[i].kind) && R[i].gop == (int)g) del(i);
      break;
    }
    case 10:  // append a byte to a picture unit
      j = pick("target", 0, nR, 'p');
      u = R[j];
      u.d = malloc(u.n + 1);
      memcpy(u.d, R[j].d, u.n);
      u.d[u.n++] = vf_u8("value");
      u.altered = true;
      R[j] = u;
      break;
    case 11:  // cut the end off a picture unit
      j = pick("target", 0, nR, 'p');
      R[j] = copy_unit(R[j]);
      R[j].n -= 1 + vf_choice("cut", (unsigned)R[j].n - 7);
      R[j].altered = true;
      break;
    case 12: {  // modify two bytes of one or two picture units
      for (int t = 0; t < 2; t++) {
        j = pick("target", 0, nR, 'p');
        R[j] = copy_unit(R[j]);
        R[j].d[R[j].n - 2 - vf_choice("offset", 2)] ^= t ? 0x80 : 0x41;
        R[j].altered = true;
      }
      break;
    }
    case 13: {  // insert a copy of a picture unit with other content right before or after it
      j = pick("target", 0, nR, 'p');
      u = copy_unit(R[j]);
      u.d[u.n - 2] = vf_u8("value");
      u.altered = true;
      ins(j + (int)vf_choice("after", 2), u);
      break;
    }
    case 14:  // lose one whole GOP including the SEI that signs it
      {
        int g = (int)vf_choice("gop", NG);
        for (int i = nR - 1; i >= 0; i--) if (R[i].gop == g) del(i);
      }
      break;
    case 15:  // exchange two whole GOPs' pictures
      {
        unit_t t2[MAXN];
        int n2 = 0, g = (int)vf_choice("gop", NG);
        for (int i = 0; i < nR; i++) if (R[i].gop == g + 1) t2[n2++] = R[i];
        for (int i = 0; i < nR; i++) if (R[i].gop == g) t2[n2++] = R[i];
        int k2 = 0;
        for (int i = 0; i < nR; i++) if (R[i].gop == g || R[i].gop == g + 1) R[i] = t2[k2++];
      }
      break;
    case 16:  // replay one whole GOP, including the SEI that signs it, between two GOPs
      {
        unit_t t2[MAXN];
        int n2 = 0, g = (int)vf_choice("gop", NG), h = (int)vf_choice("where", NG);
        for (int i = 0; i < nR; i++) if (R[i].gop == g) t2[n2++] = R[i];
        for (k = nR; k > 0 && R[k - 1].gop != h;) k--;
        vf_assume(k > 0);
        for (j = 0; j < n2; j++) ins(k + j, copy_unit(t2[j]));
        break;
      }
  }
}
void harness(void) {
  ossl_sig_size_fixed = 9;
#ifdef TAIL
  ossl_hash_tail = 1;
#endif
  signed_video_t *c = camera(CODEC, LEVEL, KEY);
#ifdef HASH
  vf_assert(signed_video_set_hash_algo(c, HASH) == SV_OK, "hash algorithm");
#endif
#ifdef BASE
  vf_assert(signed_video_set_sei_epb(c, false) == SV_OK, "epb");
#endif
#ifdef RECUR
  vf_assert(signed_video_set_recurrence_interval_frames(c, RECUR) == SV_OK, "recurrence");
#endif
  uint8_t id = 0x10;
  const int64_t *pts = NULL;
#ifdef TS
  int64_t ts = TS;
  pts = &ts;
#endif
  for (int g = 0; g <= NG; g++) {
    int start = nU;
    cam_add(c, mk_unit(CODEC, 'I', id++), pts);
#ifdef LONGP
    unsigned np = g < NG ? LONGP : 0;
#elif defined GL0  // length of the first GOP, to split the exploration
    unsigned np = g == 0 ? GL0 : g < NG ? vf_choice("gop_len", MAXP + 1) : 0;
#else
    unsigned np = g < NG ? vf_choice("gop_len", MAXP + 1) : 0;
#endif
    for (unsigned k = 0; k < np; k++) cam_add(c, mk_unit(CODEC, "Pp"[k & 1], id++), pts);
#ifdef TS
    ts += 1000000;
#endif
    for (int i = start; i < nU; i++) U[i].gop = U[i].kind == 'S' ? g - 1 : g;
  }
  signed_video_free(c);
#ifdef BASE  // any number of GOPs was signed before
  {
    uint32_t base = vf_u32("gops_before");
    uint8_t was[3] = {0};
    int at = 0;
    for (const char *p = signed_video_get_version() + 1; *p; p++) {
      if (*p == '.') at++; else was[at] = (uint8_t)(was[at] * 10 + (*p - '0'));
    }
    for (int i = 0, k = 0; i < nU; i++) {
      if (U[i].kind != 'S') continue;
      size_t mlen = 0, slen = 0;
      ossl_msg(ossl_sig_msg(k), &mlen);
      const uint8_t *sg = ossl_sig_bytes(k++, &slen);
      size_t v = 10;
      while (v + 3 < U[i].n && memcmp(U[i].d + v, was, 3)) v++;
      uint8_t *x = U[i].d + v - 6, h[64];
      uint32_t n = (uint32_t)x[0] << 24 | (uint32_t)x[1] << 16 | (uint32_t)x[2] << 8 | x[3];
      n += base;
      for (int b = 0; b < 4; b++) x[b] = (uint8_t)(n >> (24 - 8 * b));
      size_t hs = ossl_digest("sha256", U[i].d + 4, mlen, h);
      size_t sp = mlen;
      while (sp + slen < U[i].n && memcmp(U[i].d + sp, sg, slen)) sp++;
      ossl_sign_digest(KEY, h, hs, U[i].d + sp);
    }
  }
#endif
#ifdef LATE  // SEIs are delivered late
  unsigned late = 1 + vf_choice("late", LATE), which = vf_choice("which_late", NG + 1);
  for (int i = nU - 1, k = NG; i >= 0; i--) {
    if (U[i].kind != 'S') continue;
    int to = i + (int)late;
    if (which && which != (unsigned)k--) continue;
    if (to >= nU - 1) continue;
    unit_t s = U[i];
    for (int j = i; j < to; j++) {
      vf_assume(U[j + 1].kind != 'S');
      U[j] = U[j + 1];
    }
    U[to] = s;
  }
#endif
  for (int i = 0; i < nU; i++) R[i] = U[i];
  nR = nU;
#ifdef RECOVER  // only what lies between the end of GOP 0 and the start of GOP 3 is subject to the channel
  unit_t tail[MAXN];
  int nT = 0, nH = 0;
#ifndef START
  while (R[0].gop == 0) { del(0); nH++; }
#endif
  for (int i = 0; i < nR; i++) if (R[i].kind == 'I' && R[i].gop == 3) while (nR > i) { tail[nT++] = R[i]; del(i); }
#endif
#ifdef STARTG  // the viewer tunes in at the start of this GOP
  while (R[0].kind != 'I' || R[0].gop != STARTG) del(0);
#endif
#ifdef START
  for (unsigned s = vf_choice("start", (unsigned)nR); s > 0; s--) del(0);
#endif
  operate(OPA);
#ifdef OPB
  operate(OPB);
#endif
#ifdef RECOVER
#ifdef EXTRA
#define AGAIN "intact GOPs are authentic again after another start of a GOP was inserted"
#elif defined START && OPA == 99
#define AGAIN "intact GOPs are authentic from the second one after tuning in"
#elif defined START
#define AGAIN "intact GOPs are authentic again after tuning in to a disturbed stream"
#else
#define AGAIN "intact GOPs after a disturbance are authentic again"
  bool no_start;
  {  // No further unit looks like the start of a GOP, and none lies between a SEI and the start of the next GOP.
    int was = 0, is = 0;
    for (int i = 0; i < nU; i++) was += U[i].kind == 'I';
    for (int i = 0; i < nR; i++) {
      if (R[i].altered && R[i].n > 5) for (int k = 4; k < 6; k++) if (is_pic(R[i].kind) && OPA == 0) vf_assume(R[i].d[k] == U[i + nH].d[k]);
      is += R[i].kind == 'I';
      if (is_pic(R[i].kind) && R[i].kind != 'I') vf_assume(i ? R[i - 1].kind != 'S' : false);
    }
    for (int i = 0; i < nT; i++) is += tail[i].kind == 'I';
    vf_assume(is + 1 <= was);
    no_start = is + 1 < was;
  }
#endif
  while (nH) ins(0, U[--nH]);
  for (int i = 0; i < nT; i++) ins(nR, tail[i]);
#endif
  viewer_t v;
  viewer_init(&v, CODEC);
#ifdef SILENT  // a second viewer, which does not ask for the reports at some or all units
  signed_video_t *w = signed_video_create(CODEC);
  unsigned quiet_from = vf_choice("quiet_from", (unsigned)nR), quiet_len = SILENT;
#endif
  for (int i = 0; i < nR; i++) {
    signed_video_authenticity_t *r = viewer_feed(&v, &R[i]);
    vf_assert(v.rc == SV_OK, "validation accepts every unit");
#ifdef SILENT
    signed_video_authenticity_t *r2 = NULL;
    bool quiet = (unsigned)i >= quiet_from && (unsigned)i < quiet_from + quiet_len;
    vf_assert(signed_video_add_nalu_and_authenticate(w, R[i].d, R[i].n, quiet ? NULL : &r2) == SV_OK, "validation without report succeeds");
    if (!quiet) vf_assert((r != NULL) == (r2 != NULL), "reports are due at the same units");
    if (r2) {
      same_reports(r, r2, "not asking for earlier reports does not change later ones");
      signed_video_authenticity_report_free(r2);
    }
    r2 = signed_video_get_authenticity_report(w);
    if (r) {
      signed_video_authenticity_t t = *r;  // the timestamp belongs to the delivered report only
      t.latest_validation.has_timestamp = r2->latest_validation.has_timestamp;
      same_reports(&t, r2, "a fetched report says the same as a delivered one");
    }
    signed_video_authenticity_report_free(r2);
#endif
    if (r) check_report(&v);
  }
  check_sound(&v);
#ifdef INTACT
  vf_assert(v.rep && v.rep->accumulated_validation.authenticity == SV_AUTH_RESULT_OK, "an intact stream is authentic however many GOPs were signed before");
#endif
#ifdef RECOVER
  bool again = v.rep && v.rep->latest_validation.authenticity == SV_AUTH_RESULT_OK;
  for (int i = 0; i < v.n; i++)
    if (is_pic(R[i].kind) && R[i].gop >= RECOVER && R[i].gop < NG) again &= v.st[i] == '.';
#if LATE + 0 && OPA == 1
  if (no_start) vf_assert(again, "intact GOPs are authentic again after the start of a GOP was lost while a SEI came late");
  else
#endif
  vf_assert(again, AGAIN);
#endif
#if !defined START && !defined STARTG
#ifdef LEGACY
  check_flagged(&v, NG - 2);  // a unit taken for the start of a GOP is judged one GOP later
#else
  check_flagged(&v, NG - 1);
#endif
#endif
#ifdef SILENT
  signed_video_free(w);
#endif
  viewer_free(&v);
  vf_reach("end");
}
#endif
