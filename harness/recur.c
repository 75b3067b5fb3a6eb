// Metadata that is needed only once is carried by the first SEI and then once per interval, counted in frames.
#include "seiparse.h"
#ifndef LEVEL
#define LEVEL SV_AUTHENTICITY_LEVEL_FRAME
#endif
#ifndef NG
#define NG 3
#endif
#ifndef MAXP
#define MAXP 2
#endif
#ifndef KINDS
#define KINDS "Pp"
#endif
static signed_video_t *c;
static uint32_t interval, frames;
static bool due;
static int seen;
static sei_t sei;
static bool has_key = true;
static void fetched(void) {
  for (; seen < nU; seen++) {
    if (U[seen].kind != 'S') continue;
    sei_parse(U[seen].d, U[seen].n, CODEC, true, &sei);
    bool key = sei_tlv(&sei, 2) >= 0, info = sei_tlv(&sei, 3) >= 0;
    vf_assert(info == due, "product information is carried exactly when a whole number of intervals was reached");
    vf_assert(key == (due && has_key), "the public key is carried exactly when a whole number of intervals was reached");
    vf_assert(sei_tlv(&sei, 5) >= 0, "what is always needed is always carried");
    if (due) vf_reach("carried"); else vf_reach("left_out");
    due = false;
  }
}
static void add(char kind, uint8_t id) {
  unit_t u = mk_unit(CODEC, kind, id);
  if (kind == 'I' || kind == 'P') due |= frames++ % interval == 0;
#ifdef PARTS
  size_t n = u.n > 8 ? 1 + vf_choice("part", 3) : 3;
  vf_assert(signed_video_add_nalu_part_for_signing_with_timestamp(c, u.d, u.n - n, NULL, false) == SV_OK, "signing a part succeeds");
  vf_assert(signed_video_add_nalu_part_for_signing_with_timestamp(c, u.d + u.n - n, n, NULL, true) == SV_OK, "signing a part succeeds");
  cam_fetch(c);
  push(u);
#else
  cam_add(c, u, NULL);
#endif
  fetched();
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  c = camera(CODEC, LEVEL, KEY);
  interval = vf_u32("interval");
  SignedVideoReturnCode rc = signed_video_set_recurrence_interval_frames(c, interval);
  vf_assert(rc == (interval ? SV_OK : SV_NOT_SUPPORTED), "every interval but zero is accepted");
  vf_assume(interval >= 1);
#ifdef NOKEY
  vf_assert(signed_video_add_public_key_to_sei(c, false) == SV_OK, "key outside the stream");
  has_key = false;
#endif
#ifdef GOLDEN
  vf_assert(signed_video_generate_golden_sei(c) == SV_OK, "golden");
  due = true;
  cam_fetch(c);
  fetched();
#endif
  uint8_t id = 0x10;
  for (int g = 0; g <= NG; g++) {
    add('I', id++);
#ifdef CHANGE
    if (g == 1) {
      interval = vf_u32("interval_later");
      vf_assume(interval >= 1);
      vf_assert(signed_video_set_recurrence_interval_frames(c, interval) == SV_OK, "every interval but zero is accepted");
    }
#endif
    unsigned np = g < NG ? vf_choice("gop_len", MAXP + 1) : 0;
    for (unsigned k = 0; k < np; k++) add(KINDS[vf_choice("kind", sizeof KINDS - 1)], id++);
#ifdef EOS
    if (g == EOS) {
      cam_eos(c);
      fetched();
    }
#endif
#ifdef RESET
    if (g == RESET) {
      vf_assert(signed_video_reset(c) == SV_OK, "reset");
      frames = 0;
      due = false;
    }
#endif
  }
  signed_video_free(c);
  vf_reach("end");
}
