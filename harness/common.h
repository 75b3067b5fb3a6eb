// Shared harness vocabulary: an emulated camera (signing session) and a viewer (validation session),
// both driven only through the public API.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "includes/signed_video_auth.h"
#include "includes/signed_video_common.h"
#include "includes/signed_video_sign.h"
#include "ossl_model.h"
#include "vf.h"

#ifndef CODEC
#define CODEC SV_CODEC_H264
#endif
#ifndef KEY
#define KEY 'A'
#endif
#ifndef SIGSIZE
#define SIGSIZE 9
#endif
#ifndef SLICES
#define SLICES 1
#endif
#ifndef PAYLOAD
#define PAYLOAD 0
#endif
#define MAXN 48

typedef struct { uint8_t *d; size_t n; char kind; int gop; int signed_pos; bool altered; } unit_t;
// kind: 'I','i','P','p' picture units, 'S' signature SEI, 'G' golden SEI, 'v' parameter set, '_' AUD, 'z' foreign SEI
extern unit_t U[MAXN];
extern int nU;

unit_t mk_unit(SignedVideoCodec codec, char kind, uint8_t id);
unit_t copy_unit(unit_t u);
void push(unit_t u);
signed_video_t *camera(SignedVideoCodec codec, SignedVideoAuthenticityLevel level, char key);
// Adds |u| for signing, fetches every available SEI and pushes SEIs followed by |u| to U.
void cam_add(signed_video_t *c, unit_t u, const int64_t *ts);
int cam_fetch(signed_video_t *c);   // pushes all fetched SEIs; returns how many
void cam_eos(signed_video_t *c);

typedef struct {
  signed_video_t *sv;
  int n;                 // units fed
  char st[MAXN];         // latest status per fed unit (0 = never reported)
  char fin[MAXN];        // last report's status
  bool fresh[MAXN];      // status was given by the latest report for the first time
  char okst[MAXN];       // latest status given by a report with a verdict (not merely "signature present")
  signed_video_authenticity_t *rep;  // latest report or NULL
  int nrep, n_ok, n_notok, n_present, n_missing_info, n_unsigned, n_mismatch, uncounted;
  int n_M;               // missing marks in the latest report
  SignedVideoReturnCode rc;
#ifdef RULES
  char kind[MAXN];       // kind of each fed unit, 0 if altered
  signed_video_authenticity_t snap;  // content of the latest report when it was delivered
  char snap_v[MAXN + 1], snap_n[MAXN + 1];
#endif
} viewer_t;
void viewer_init(viewer_t *v, SignedVideoCodec codec);
// Feeds one unit; returns the report (owned by the viewer) or NULL.
signed_video_authenticity_t *viewer_feed(viewer_t *v, const unit_t *u);
void viewer_free(viewer_t *v);
// Asserts that two reports say the same.
void same_reports(const signed_video_authenticity_t *x, const signed_video_authenticity_t *y, const char *what);
static inline bool is_pic(char k) { return k == 'I' || k == 'i' || k == 'P' || k == 'p'; }
#ifdef LEAK  // At the end of a run, everything the framework allocated has been given back.
static inline void ended(const char *tag) {
  vf_reach(tag);
  if (strcmp(tag, "end")) return;
  vf_assert(vf_live_blocks == 0, "all memory is given back");
  vf_assert(ossl_live_objects() == 0, "all objects of the cryptographic library are given back");
}
#define vf_reach(t) ended(t)
#endif
#ifdef LEGACY
#define LVERSION "v1.1.9"
extern size_t leg_cut[32];  // how far the signature covers each SEI
#endif
#endif
