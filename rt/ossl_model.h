// Ideal model of the OpenSSL functions the framework calls.
//  - hashing: an injective random oracle. Two digests are equal iff digest type and message are equal.
//  - signing: unforgeable. A signature verifies iff exactly that (key, hash) pair was signed.
#ifndef OSSL_MODEL_H
#define OSSL_MODEL_H
#include <stddef.h>
#include <stdint.h>
#define OSSL_MSG_MAX 1400     // longest message the model hashes
extern int ossl_fault_budget;    // injected OpenSSL failures per path
extern int ossl_faults;          // number injected so far
extern int ossl_sig_size_fixed;  // >0: signatures always have this size
extern int ossl_sig_symbolic;    // 1: signature bytes are arbitrary (for encoding harnesses)
extern int ossl_verify_mode;     // 0 ideal; 1 arbitrary result in {1,0,-1}
extern int ossl_sign_fault_budget;
extern int ossl_verify_bad;         // verifications that did not succeed
extern int ossl_verify_calls, ossl_sign_calls, ossl_last_verify;
extern int ossl_max_sig;         // EVP_PKEY_size
extern int ossl_hash_sparse, ossl_hash_tail;     // what digests look like
unsigned ossl_num_msgs(void);
// Number of the (unique) message a digest stands for, or -1.
int ossl_digest_index(const uint8_t *digest, size_t n);
const uint8_t *ossl_msg(int idx, size_t *len);
// Signatures made so far: their bytes, and the message (see ossl_msg) each of them signs.
int ossl_num_sigs(void);
const uint8_t *ossl_sig_bytes(int i, size_t *n);
int ossl_sig_msg(int i);
int ossl_signed_index(const uint8_t *sig, size_t n);
// vendor certificates
typedef struct { char id; char key; int chain_ok; const char *cn; const char *sn; int is_ec; } ossl_cert_t;
extern ossl_cert_t ossl_certs[4];
extern int ossl_attest_mode;     // 0 ideal, 1 arbitrary
int ossl_attest_sign(char key, const uint8_t *data, size_t n, uint8_t *sig);  // returns size
long ossl_live_objects(void);
// For signers of the harness: the digest of a message, and a signature (of ossl_sig_size_fixed bytes) of a digest.
size_t ossl_digest(const char *sn, const uint8_t *d, size_t n, uint8_t *out);
size_t ossl_sign_digest(char key, const uint8_t *h, size_t n, uint8_t *sig);
// The modelled file system
extern int fs_fault_budget, fs_faults, fs_open_files;
int fs_count(void);
const uint8_t *fs_file(const char *path, size_t *n);
const char *fs_name(int i);
void fs_put(const char *path, const char *d);
#endif
