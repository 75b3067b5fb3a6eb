// A device that attests its public key: attestation reports and certificate chains as Axis Communications devices make them.
#ifndef ATTEST_H
#define ATTEST_H
#include "includes/sv_vendor_axis_communications.h"
#include <openssl/sha.h>
#define AXIS "Axis Communications AB"
#define CN "Axis Edge Vault Attestation "
#define CHIP "0400500102030405060708090a0b0c0d0e0f"
#define CERT(x) "-----BEGIN CERTIFICATE-----\n" x "\n-----END CERTIFICATE-----\n"
#define SERIAL "SN1234567890"
static const uint8_t kChip[18] = {4, 0, 0x50, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
// What a device with |chip| signs to attest the public key |key| at time |ts|.
static size_t attested_data(uint8_t *d, char key, const uint8_t *chip, const uint8_t *ts) {
  static const uint8_t raw[40] = {0x80, 0x22, 0, 0, 0, 0, 0x21, 0x41, 0x04, 0x7b, 0x00, 0x02, 0x01, 0x45, 0x04, 0xf0, 0, 0, 0x12, 0x46, 0x01, 0x21, 0x47,
      0x10, 0x92, 0xbb, 0xed, 0xfb, 0x98, 0x82, 0xac, 0x16, 0xc7, 0xf0, 0x1a, 0xe4, 0x59, 0x05, 0x96, 0x04};
  static const uint8_t attr[37] = {0x7b, 0x00, 0x02, 0x01, 0x29, 0x01, 0x00, 0x00, 0x7b, 0x00, 0x00, 0x03, 0x00, 0x00, 0x08, 0x7b, 0x00, 0x00, 0x03, 0x1f, 0x3c, 0x00, 0x00,
      0x08, 0x00, 0x00, 0x00, 0x00, 0x00, 0x20, 0x00, 0x00, 0x02, 0x00, 0x00, 0x00, 0x00};
  static const uint8_t mid[10] = {0x44, 0x82, 0, 2, 0, 0x20, 0x4f, 0x82, 0, 0x0c};
  size_t n = 0;
  SHA256(raw, 40, d);
  n += 32;
  d[n++] = 0x41; d[n++] = 0x82; d[n++] = 0; d[n++] = 65;
  for (int i = 0; i < 65; i++) d[n++] = i ? (uint8_t)(i + key) : 4;
  d[n++] = 0x42; d[n++] = 0x82; d[n++] = 0; d[n++] = 18;
  memcpy(d + n, chip, 18);
  n += 18;
  d[n++] = 0x43; d[n++] = 0x82; d[n++] = 0; d[n++] = 37;
  memcpy(d + n, attr, 37);
  n += 37;
  memcpy(d + n, mid, 10);
  n += 10;
  memcpy(d + n, ts, 12);
  return n + 12;
}
static size_t attestation(uint8_t *a, char signer, char key, const uint8_t *chip) {
  static const uint8_t ts[12] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12};
  uint8_t d[256], sig[16];
  size_t n = attested_data(d, key, chip, ts);
  int sl = ossl_attest_sign(signer, d, n, sig);
  memcpy(a, (const uint8_t[]){0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 1}, 9);
  memcpy(a + 9, ts, 12);
  a[21] = 0;
  a[22] = (uint8_t)sl;
  memcpy(a + 23, sig, (size_t)sl);
  return 23 + (size_t)sl;
}
static void certs(void) {
  ossl_certs[0] = (ossl_cert_t){.id = 'a', .key = 'L', .chain_ok = 1, .cn = CN CHIP, .sn = SERIAL, .is_ec = 1};
  ossl_certs[1] = (ossl_cert_t){.id = 'i', .key = 'M', .chain_ok = 1, .cn = "Axis Intermediate", .sn = NULL, .is_ec = 1};
  ossl_certs[2] = (ossl_cert_t){.id = 'b', .key = 'L', .chain_ok = 1, .cn = CN CHIP, .sn = SERIAL, .is_ec = 1};
}
#define CHAIN CERT("a") CERT("i") CERT("root")
#endif
