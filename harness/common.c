#include "common.h"

unit_t U[MAXN];
int nU;

unit_t mk_unit(SignedVideoCodec codec, char kind, uint8_t id) {
  unit_t u = {0};
  uint8_t b[16];
  size_t n = 0;
  b[n++] = 0; b[n++] = 0; b[n++] = 0; b[n++] = 1;
  bool h4 = codec == SV_CODEC_H264;
  switch (kind) {
    case 'I': case 'i': if (h4) b[n++] = 0x65; else { b[n++] = 0x26; b[n++] = 0x01; } break;
    case 'P': case 'p': if (h4) b[n++] = 0x01; else { b[n++] = 0x02; b[n++] = 0x01; } break;
    case 'v': if (h4) b[n++] = 0x67; else { b[n++] = 0x42; b[n++] = 0x01; } break;
    case '_': if (h4) b[n++] = 0x09; else { b[n++] = 0x46; b[n++] = 0x01; } break;
    case 'z': if (h4) b[n++] = 0x06; else { b[n++] = 0x4e; b[n++] = 0x01; } b[n++] = 0x01; b[n++] = 2; break;
    default: vf_assert(0, "harness: kind");
  }
  if (is_pic(kind)) b[n++] = (kind == 'I' || kind == 'P') ? 0xa0 : 0x20;
  b[n++] = id;
  for (int i = 0; i < PAYLOAD; i++) b[n++] = (uint8_t)(0x31 + i);
  b[n++] = 0x80;
  u.d = malloc(n);
  memcpy(u.d, b, n);
  u.n = n;
  u.kind = kind;
  u.signed_pos = -1;
  return u;
}
unit_t copy_unit(unit_t u) {
  uint8_t *d = malloc(u.n);
  memcpy(d, u.d, u.n);
  u.d = d;
  return u;
}
void push(unit_t u) {
  vf_bound(nU < MAXN, "units");
  U[nU++] = u;
}
#ifdef LEGACY
#include "legacy.h"
#else
signed_video_t *camera(SignedVideoCodec codec, SignedVideoAuthenticityLevel level, char key) {
  signed_video_t *c = signed_video_create(codec);
  vf_assert(c != NULL, "harness: create");
  char pem[5] = {'P', 'R', 'I', 'V', key};
  SignedVideoReturnCode rc = signed_video_set_private_key_new(c, pem, 5);
  vf_assert(rc == SV_OK, "setting a valid private key succeeds");
  rc = signed_video_set_authenticity_level(c, level);
  vf_assert(rc == SV_OK, "setting a valid authenticity level succeeds");
  return c;
}
int cam_fetch(signed_video_t *c) {
  int k = 0;
  for (;;) {
    size_t n = 0;
    SignedVideoReturnCode rc = signed_video_get_sei(c, NULL, &n, NULL, NULL, 0, NULL);
    vf_assert(rc == SV_OK, "fetching a SEI succeeds");
    if (!n) return k;
    unit_t u = {0};
    u.d = malloc(n);
    u.n = n;
    u.kind = 'S';
    u.signed_pos = -1;
    size_t m = 0;
    rc = signed_video_get_sei(c, u.d, &m, NULL, NULL, 0, NULL);
    vf_assert(rc == SV_OK && m == n, "the announced SEI is delivered");
    push(u);
    k++;
  }
}
void cam_add(signed_video_t *c, unit_t u, const int64_t *ts) {
  SignedVideoReturnCode rc = signed_video_add_nalu_for_signing_with_timestamp(c, u.d, u.n, ts);
  vf_assert(rc == SV_OK, "signing a valid unit succeeds");
  cam_fetch(c);
  push(u);
}
void cam_eos(signed_video_t *c) {
  SignedVideoReturnCode rc = signed_video_set_end_of_stream(c);
  vf_assert(rc == SV_OK, "ending the stream succeeds");
  cam_fetch(c);
}
#endif

void viewer_init(viewer_t *v, SignedVideoCodec codec) {
  memset(v, 0, sizeof *v);
  v->sv = signed_video_create(codec);
  vf_assert(v->sv != NULL, "harness: create");
}
void same_reports(const signed_video_authenticity_t *x, const signed_video_authenticity_t *y, const char *what) {
  const signed_video_latest_validation_t *a = &x->latest_validation, *b = &y->latest_validation;
  const signed_video_accumulated_validation_t *c = &x->accumulated_validation, *d = &y->accumulated_validation;
  vf_assert((a->validation_str && b->validation_str) ? strcmp(a->validation_str, b->validation_str) == 0 && strcmp(a->nalu_str, b->nalu_str) == 0 : a->validation_str == b->validation_str, what);
  vf_assert(a->authenticity == b->authenticity && a->public_key_has_changed == b->public_key_has_changed && a->number_of_expected_picture_nalus == b->number_of_expected_picture_nalus &&
      a->number_of_received_picture_nalus == b->number_of_received_picture_nalus && a->number_of_pending_picture_nalus == b->number_of_pending_picture_nalus &&
      a->public_key_validation == b->public_key_validation && a->has_timestamp == b->has_timestamp && (!a->has_timestamp || a->timestamp == b->timestamp), what);
  vf_assert(c->authenticity == d->authenticity && c->public_key_has_changed == d->public_key_has_changed && c->number_of_received_nalus == d->number_of_received_nalus &&
      c->number_of_validated_nalus == d->number_of_validated_nalus && c->number_of_pending_nalus == d->number_of_pending_nalus && c->public_key_validation == d->public_key_validation &&
      c->has_timestamp == d->has_timestamp && c->first_timestamp == d->first_timestamp && c->last_timestamp == d->last_timestamp, what);
}
#ifdef RULES
static void snap_check(viewer_t *v) {
  v->snap.latest_validation.validation_str = v->snap_v;
  v->snap.latest_validation.nalu_str = v->snap_n;
  same_reports(v->rep, &v->snap, "a delivered report does not change");
}
// What every report has to obey, whatever was fed. |prev| is the previous report's content or NULL.
static void rules(viewer_t *v, const signed_video_authenticity_t *r, bool first, const char *st_before) {
  const signed_video_latest_validation_t *l = &r->latest_validation;
  const signed_video_accumulated_validation_t *a = &r->accumulated_validation;
  const signed_video_accumulated_validation_t *p = &v->snap.accumulated_validation;
#if RULES & 1
  SignedVideoAuthenticityResult was = first ? SV_AUTH_RESULT_NOT_SIGNED : p->authenticity;
  SignedVideoAuthenticityResult want = was <= SV_AUTH_RESULT_SIGNATURE_PRESENT || l->authenticity < was ? l->authenticity : was;
  vf_assert(a->authenticity == want, "the overall verdict is the worst of the verdicts given so far");
  vf_assert(a->public_key_has_changed == (l->public_key_has_changed || (!first && p->public_key_has_changed)), "a changed key stays announced");
  vf_assert(a->public_key_validation == (!first && p->public_key_validation == SV_PUBKEY_VALIDATION_NOT_OK ? SV_PUBKEY_VALIDATION_NOT_OK : l->public_key_validation), "a failed validation of the key stays announced");
  vf_assert(!a->public_key_has_changed || a->authenticity == SV_AUTH_RESULT_NOT_OK, "with a changed key the overall verdict is not OK");
  bool had = !first && p->has_timestamp;
  vf_assert(a->has_timestamp == (l->has_timestamp || had), "the overall report has a timestamp once one was reported");
  if (a->has_timestamp) {
    vf_assert(a->first_timestamp == (had ? p->first_timestamp : l->timestamp), "first timestamp");
    vf_assert(a->last_timestamp == (l->has_timestamp ? l->timestamp : p->last_timestamp), "last timestamp");
  }
#endif
#if RULES & 2
  // Strings
  size_t n = strlen(l->validation_str);
  int idx = v->n - 1, j = idx, np = 0, nv = 0;
  for (size_t k = n; k-- > 0;) {
    char c = l->validation_str[k], t = l->nalu_str[k];
    vf_assert(c == 'P' || c == 'U' || c == '_' || c == '.' || c == 'N' || c == 'M' || c == 'E', "a documented mark");
    vf_assert((c == 'M') == (t == ' '), "a missing unit has no type");
    if (c == 'P') np++;
    if (c == 'M') continue;
    if (c == '.' && t != 'S' && t != 'Z' && !(st_before[j] && st_before[j] != 'P')) nv++;
    vf_assert(!v->kind[j] || v->kind[j] == t, "the type of every unit is reported");
    j--;
  }
  for (; j >= 0; j--) vf_assert(st_before[j] && st_before[j] != 'P', "a unit is reported until it is validated");
  if (a->authenticity == SV_AUTH_RESULT_NOT_SIGNED)  // what need not be validated is left behind without being counted as long as no signature was seen
    for (size_t k = 0; k < n && l->validation_str[k] != 'P'; k++) v->uncounted += l->validation_str[k] != 'M';
  vf_assert(l->number_of_pending_picture_nalus == np, "the number of pending units is the number of pending marks");
#ifndef LEGACY  // a legacy GOP is judged before the picture that links it to the next one
  vf_assert(!(l->authenticity == SV_AUTH_RESULT_OK && l->number_of_received_picture_nalus != l->number_of_expected_picture_nalus), "OK means that all expected pictures were received");
  if (l->authenticity == SV_AUTH_RESULT_OK && l->number_of_received_picture_nalus >= 0)
    vf_assert(l->number_of_received_picture_nalus == nv, "the number of received pictures is the number of units validated");
#endif
#endif
}
#if RULES & 2
static void counts(viewer_t *v) {
  signed_video_authenticity_t *r = signed_video_get_authenticity_report(v->sv);
  vf_assert(r != NULL, "a report can be fetched at any time");
  const signed_video_accumulated_validation_t *a = &r->accumulated_validation;
  vf_assert(a->number_of_received_nalus == (unsigned)v->n, "all received units are counted");
  if (a->authenticity == SV_AUTH_RESULT_NOT_SIGNED) {
    vf_assert(a->number_of_validated_nalus == 0 && a->number_of_pending_nalus == (unsigned)v->n, "all units of an unsigned video are pending");
  } else {
    vf_assert(a->number_of_validated_nalus + a->number_of_pending_nalus + (unsigned)v->uncounted == (unsigned)v->n, "every received unit is either validated or pending");
  }
  signed_video_authenticity_report_free(r);
}
#else
static void counts(viewer_t *v) {}
#endif
#endif
signed_video_authenticity_t *viewer_feed(viewer_t *v, const unit_t *u) {
  signed_video_authenticity_t *r = NULL;
  v->rc = signed_video_add_nalu_and_authenticate(v->sv, u->d, u->n, &r);
  int idx = v->n++;
  vf_bound(idx < MAXN, "fed");
#ifdef RULES
  char before[MAXN];
  memcpy(before, v->st, MAXN);
  v->kind[idx] = u->altered ? 0 : u->kind;
  if (v->rep) snap_check(v);
  counts(v);
#endif
  if (!r) return NULL;
#ifdef RULES
  bool first = v->rep == NULL;
#endif
  if (v->rep) signed_video_authenticity_report_free(v->rep);
  v->rep = r;
  v->nrep++;
  v->n_M = 0;
  const char *vs = r->latest_validation.validation_str, *ns = r->latest_validation.nalu_str;
  for (int i = 0; i < MAXN; i++) v->fin[i] = 0;
  if (vs && ns) {
    size_t a = strlen(vs);
    vf_assert(a == strlen(ns), "report strings have one character per unit");
    int j = idx;
    bool first_failed = false;  // what precedes a SEI that could not be used at the start is not vouched for
    for (size_t k = a; k-- > 0;) {
      if (vs[k] == 'M') { v->n_M++; continue; }
      first_failed |= vs[k] == 'U' && ns[k] == 'S';
      vf_assert(j >= 0, "report does not describe more units than were received");
      v->fresh[j] = v->st[j] != vs[k];
      v->fin[j] = v->st[j] = vs[k];
      if (r->latest_validation.authenticity > SV_AUTH_RESULT_SIGNATURE_PRESENT && !first_failed) v->okst[j] = vs[k];
      j--;
    }
  }
#ifdef RULES
  vf_trace(ns, (uint64_t)r->accumulated_validation.authenticity);
  vf_trace(vs, (uint64_t)r->latest_validation.authenticity);
  rules(v, r, first, before);
  v->snap = *r;
  vf_bound(strlen(vs) <= MAXN, "report");
  strcpy(v->snap_v, vs);
  strcpy(v->snap_n, ns);
#endif
  switch (r->latest_validation.authenticity) {
    case SV_AUTH_RESULT_NOT_SIGNED: v->n_unsigned++; break;
    case SV_AUTH_RESULT_SIGNATURE_PRESENT: v->n_present++; break;
    case SV_AUTH_RESULT_NOT_OK: v->n_notok++; break;
    case SV_AUTH_RESULT_OK_WITH_MISSING_INFO: v->n_missing_info++; break;
    case SV_AUTH_RESULT_OK: v->n_ok++; break;
    default: v->n_mismatch++; break;
  }
  return r;
}
void viewer_free(viewer_t *v) {
  if (v->rep) signed_video_authenticity_report_free(v->rep);
  signed_video_free(v->sv);
}
