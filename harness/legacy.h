// A camera that signs as the framework did before linked hashes and GOP hashes were introduced (up to v1.1.29), written
// from the description of that format, independent of the code under test. Session handles are real, but only name the camera.
#include "seibuild.h"
#ifndef HASH
#define LHASH "sha256"
#else
#define LHASH HASH
#endif
#ifndef EPB
#define EPB 0
#endif
#ifndef LGENERAL   // version of the general information
#define LGENERAL 2
#endif
#ifndef LMAXLIST   // hashes the hash list has room for
#define LMAXLIST 8
#endif
#ifndef RECUR
#define RECUR 1
#endif
static struct leg {
  signed_video_t *h; SignedVideoCodec codec; int level; char key;
  size_t hs; uint32_t gop; unsigned num; bool has_ref; int frames, meta_at;
  uint8_t ref[64], gop_hash[64], list[LMAXLIST * 64]; int nlist; bool overflow;
} LEG[4];
static int nLEG;
size_t leg_cut[32];
static int leg_seis;
static void leg_reset(struct leg *l) {
  uint8_t salt = 1;
  l->hs = ossl_digest(LHASH, &salt, 1, l->gop_hash);
  l->num = 0;
  l->nlist = 0;
  l->overflow = false;
  l->has_ref = false;
}
signed_video_t *camera(SignedVideoCodec codec, SignedVideoAuthenticityLevel level, char key) {
  struct leg *l = &LEG[nLEG++];
  l->h = signed_video_create(codec);
  l->codec = codec;
  l->level = (int)level;
  l->key = key;
  leg_reset(l);
  return l->h;
}
static struct leg *leg_of(signed_video_t *c) {
  for (int i = 0; i < nLEG; i++) if (LEG[i].h == c) return &LEG[i];
  vf_assert(0, "harness: camera");
  return NULL;
}
static void leg_update(struct leg *l, const uint8_t *hash) {
  uint8_t b[128], o[64];
  memcpy(b, l->gop_hash, l->hs);
  memcpy(b + l->hs, hash, l->hs);
  ossl_digest(LHASH, b, 2 * l->hs, o);
  memcpy(l->gop_hash, o, l->hs);
}
// Hashes a picture unit, with the first picture of the GOP as reference, and adds it to the list and the recursive hash.
static void leg_hash(struct leg *l, const unit_t *u, bool first) {
  uint8_t h[64], b[128];
  ossl_digest(LHASH, u->d + 4, u->n - 4, h);
  if (first && !l->has_ref) {
    memcpy(l->ref, h, l->hs);
    l->has_ref = true;
  } else {
    memcpy(b, l->ref, l->hs);
    memcpy(b + l->hs, h, l->hs);
    ossl_digest(LHASH, b, 2 * l->hs, h);
  }
  if (l->nlist < LMAXLIST) memcpy(l->list + l->hs * (size_t)l->nlist++, h, l->hs); else l->overflow = true;
  leg_update(l, h);
  l->num++;
}
static void leg_sei(struct leg *l, const int64_t *ts) {
  static const uint8_t oid256[11] = {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1}, oid512[11] = {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 3};
  sb_t s;
  sb_begin(&s, l->codec, EPB ? 0x80 : 0);
  uint8_t g[20] = {LGENERAL, (uint8_t)(l->gop >> 24), (uint8_t)(l->gop >> 16), (uint8_t)(l->gop >> 8), (uint8_t)l->gop, (uint8_t)(l->num >> 8), (uint8_t)l->num, 1, 1, 9};
  size_t gn = 10;
#if LGENERAL >= 2
  g[gn++] = ts ? 1 : 0;
  if (ts) for (int i = 7; i >= 0; i--) g[gn++] = (uint8_t)((uint64_t)*ts >> (8 * i));
#endif
  l->gop++;
  sb_tlv(&s, 1, g, gn);
  if (l->frames >= l->meta_at) {
    l->meta_at = l->frames + RECUR;
#ifndef NOKEY
    sb_key(&s, l->key);
#endif
    uint8_t info[21] = {1, 3, 'h', 'w', 0, 3, 'f', 'w', 0, 3, 's', 'n', 0, 3, 'm', 'f', 0, 3, 'a', 'd', 0};
    sb_tlv(&s, 3, info, 21);
#ifndef LNOCRYPTO
    uint8_t ci[13] = {1, 11};
    memcpy(ci + 2, l->hs == 32 ? oid256 : oid512, 11);
    sb_tlv(&s, 7, ci, 13);
#endif
  }
  bool doc = l->level == SV_AUTHENTICITY_LEVEL_FRAME && !l->overflow;
  if (doc) {
    uint8_t hl[1 + LMAXLIST * 64] = {1};
    memcpy(hl + 1, l->list, l->hs * (size_t)l->nlist);
    sb_tlv(&s, 4, hl, 1 + l->hs * (size_t)l->nlist);
  }
  size_t sig_at = s.n;
  uint8_t sig[16] = {0};
  for (int pass = 0; pass < 2; pass++) {
    s.n = sig_at;
    sb_signature(&s, sig, pass ? (size_t)ossl_sig_size_fixed : 0, 10, doc);
    unit_t u = sb_unit(&s, true);
    size_t cut = u.n - (s.n - sig_at) - 1;
    if (EPB) {  // emulation prevention from the payload on
      uint8_t *d = malloc(u.n + 200);
      size_t k = 0, zeros = 0, newcut = 0;
      for (size_t i = 0; i < u.n; i++) {
        if (i == cut) newcut = k;
        if (i >= 5 && zeros >= 2 && u.d[i] <= 3) { d[k++] = 3; zeros = 0; }
        zeros = i >= 5 && u.d[i] == 0 ? zeros + 1 : 0;
        d[k++] = u.d[i];
      }
      vf_bound(k <= u.n + 200, "emulation prevention");
      free(u.d);
      u.d = d; u.n = k; cut = newcut;
    }
    if (!pass) {
      uint8_t h[64];
      ossl_digest(LHASH, u.d + 4, cut - 4, h);
      leg_update(l, h);
      ossl_sign_digest(l->key, doc ? h : l->gop_hash, l->hs, sig);
      free(u.d);
    } else {
      u.kind = 'S'; u.altered = false;
      vf_bound(leg_seis < 32, "legacy SEIs");
      leg_cut[leg_seis++] = cut;
      push(u);
    }
  }
  leg_reset(l);
}
int cam_fetch(signed_video_t *c) { (void)c; return 0; }
void cam_add(signed_video_t *c, unit_t u, const int64_t *ts) {
  struct leg *l = leg_of(c);
  if (is_pic(u.kind)) {
    bool first = u.kind == 'I';
    if (u.kind == 'I' || u.kind == 'P') l->frames++;
    leg_hash(l, &u, first);
    if (first) {
      leg_sei(l, ts);
      leg_hash(l, &u, true);
    }
  }
  push(u);
}
void cam_eos(signed_video_t *c) { (void)c; }
