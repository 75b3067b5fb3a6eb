// An independent reading of a generated signature SEI, down to its information elements.
#ifndef SEIPARSE_H
#define SEIPARSE_H
#include "common.h"
typedef struct {
  uint8_t reserved;
  size_t off;            // start of the payload (identifier) in the unit
  uint8_t raw[2200];     // payload without emulation prevention
  size_t n;
  struct { uint8_t tag; size_t at, n; } tlv[12];
  int ntlv;
} sei_t;
static inline int sei_tlv(const sei_t *s, uint8_t tag) {
  for (int i = 0; i < s->ntlv; i++) if (s->tlv[i].tag == tag) return i;
  return -1;
}
static void sei_parse(const uint8_t *d, size_t n, SignedVideoCodec codec, bool epb, sei_t *s) {
  static const uint8_t uuid[16] = {0x53, 0x69, 0x67, 0x6e, 0x65, 0x64, 0x20, 0x56, 0x69, 0x64, 0x65, 0x6f, 0x2e, 0x2e, 0x2e, 0x30};
  size_t k = 0;
  s->n = 0;
  s->ntlv = 0;
  vf_assert(n > 30, "a SEI has a header and a payload");
  vf_assert(d[0] == 0 && d[1] == 0 && d[2] == 0 && d[3] == 1, "a SEI begins with a start code");
  k = 4;
  if (codec == SV_CODEC_H264) { vf_assert(d[k] == 6, "a SEI has the SEI unit type"); k++; }
  else { vf_assert(d[k] == 0x4e && d[k + 1] == 1, "a SEI has the SEI unit type"); k += 2; }
  vf_assert(d[k] == 5, "a SEI is of type user data unregistered");
  k++;
  size_t size = 0;
  while (d[k] == 0xff) { size += 0xff; k++; }
  size += d[k++];
  s->off = k;
  if (epb) {
    for (size_t i = 4; i + 2 < n; i++) {
      if (!(d[i] == 0 && d[i + 1] == 0)) continue;
      vf_assert(d[i + 2] >= 3, "a SEI contains no start code emulation");
      if (d[i + 2] == 3) vf_assert(i + 3 < n && d[i + 3] <= 3, "emulation prevention is used only where needed");
    }
    vf_assert(d[n - 1] != 0, "a SEI does not end with a zero byte");
  }
  unsigned zeros = 0;
  for (; k + 1 < n; k++) {
    if (epb && zeros >= 2 && d[k] == 3) { zeros = 0; continue; }
    vf_bound(s->n < sizeof s->raw, "sei size");
    s->raw[s->n++] = d[k];
    zeros = d[k] == 0 ? zeros + 1 : 0;
  }
  vf_assert(s->n == size, "the payload size of a SEI is right");
  vf_assert(d[n - 1] == 0x80, "a SEI ends with the stop bit");
  uint8_t x = 0;
  for (int i = 0; i < 16; i++) x |= (uint8_t)(s->raw[i] ^ uuid[i]);
  vf_assert(x == 0, "a SEI carries the identifier");
  s->reserved = s->raw[16];
  vf_assert(!!(s->reserved & 0x80) == epb, "a SEI tells whether emulation prevention was applied before signing");
  size_t at = 17;
  while (at < s->n) {
    uint8_t tag = s->raw[at++];
    vf_assert((tag >= 1 && tag <= 7) || tag == 129, "a SEI holds known information elements only");
    size_t len;
    vf_assert(at + 2 <= s->n, "information elements fill the payload exactly");
    len = s->raw[at++];
    if (tag != 1 && tag != 7) len = len << 8 | s->raw[at++];
    vf_assert(len > 0 && at + len <= s->n, "information elements fill the payload exactly");
    vf_assert(sei_tlv(s, tag) < 0, "each information element is present once");
    vf_bound(s->ntlv < 12, "tlvs");
    s->tlv[s->ntlv].tag = tag; s->tlv[s->ntlv].at = at; s->tlv[s->ntlv].n = len;
    s->ntlv++;
    at += len;
  }
  vf_assert(at == s->n, "information elements fill the payload exactly");
  vf_assert(s->ntlv && s->tlv[s->ntlv - 1].tag == 5, "the signature is the last information element");
}
#endif
