#include <openssl/bio.h>
#include <openssl/ec.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <openssl/x509.h>
#include <openssl/x509_vfy.h>
#include <stdlib.h>
#include <string.h>

#include "ossl_model.h"
#include "vf.h"

int ossl_fault_budget = 0, ossl_faults = 0;
int ossl_sig_size_fixed = 0, ossl_sig_symbolic = 0;
int ossl_verify_mode = 0, ossl_verify_calls = 0, ossl_sign_calls = 0, ossl_last_verify = -2;
int ossl_max_sig = 10;
int ossl_hash_sparse = 0, ossl_hash_tail = 0;
static long live;
long ossl_live_objects(void) { return live; }
static void *zalloc(size_t n) { live++; return calloc(1, n); }
static void zfree(void *p) { if (p) live--; free(p); }

static int fault_(const char *where) {
  if (ossl_fault_budget <= 0) return 0;
  if (!vf_choice("ossl_fault", 2)) return 0;
  ossl_fault_budget--;
  ossl_faults++;
  vf_trace(where, 0);
  return 1;
}
#define fault() fault_(__func__)

// ------------------------------------------------------------------ digests
struct evp_md_st { int nid; const char *sn; int size; unsigned char oid[16]; int oid_size; };
static const struct evp_md_st MDS[] = {
    {NID_sha256, "SHA256", 32, {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1}, 11},
    {NID_sha384, "SHA384", 48, {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 2}, 11},
    {NID_sha512, "SHA512", 64, {6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 3}, 11},
    {NID_sha1, "SHA1", 20, {6, 5, 0x2b, 0x0e, 3, 2, 0x1a}, 7},
};
#define NMDS 4
const EVP_MD *EVP_sha256(void) { return &MDS[0]; }
const EVP_MD *EVP_sha512(void) { return &MDS[2]; }
int EVP_MD_get_size(const EVP_MD *md) { return md ? md->size : -1; }

struct evp_md_ctx_st { const EVP_MD *md; int ready; size_t len; uint8_t buf[OSSL_MSG_MAX]; EVP_PKEY *vkey; };

#define MAXMSG 600
static struct { const EVP_MD *md; size_t len; uint8_t *data; } msgs[MAXMSG];
static unsigned nmsgs;
unsigned ossl_num_msgs(void) { return nmsgs; }
const uint8_t *ossl_msg(int i, size_t *len) { *len = msgs[i].len; return msgs[i].data; }

static void token(uint8_t *out, int size, unsigned idx, uint8_t tag) {
  for (int i = 0; i < size; i++) out[i] = (uint8_t)(0x40 + 7 * i + tag);
  if (ossl_hash_sparse) {  // patterns that need emulation prevention
    for (int i = 0; i < size; i++) out[i] = i % 3 == 2 ? 3 : 0;
    if (size > 20) out[12] = 0;
  }
  if (ossl_hash_tail) {  // digests that differ in their last bytes only
    for (int i = 0; i < size - 3; i++) out[i] = 0;
    out[size - 3] = tag;
    out[size - 2] = (uint8_t)(idx >> 8);
    out[size - 1] = (uint8_t)idx;
    return;
  }
  out[0] = (uint8_t)idx;
  out[1] = (uint8_t)(idx >> 8);
  if (size > 5) out[5] = tag;
}
static void ideal_hash(const EVP_MD *md, const uint8_t *d, size_t n, uint8_t *out) {
  unsigned k;
  for (k = 0; k < nmsgs; k++) {
    if (msgs[k].len != n || msgs[k].md != md) continue;
    uint8_t acc = 0;
    int differs = 0;
    for (size_t i = 0; i < n; i++) {
      uint8_t x = (uint8_t)(d[i] ^ msgs[k].data[i]);
      if (vf_is_symbolic(x)) acc |= x;
      else if (x) { differs = 1; break; }
    }
    if (differs) continue;
    if (acc == 0) break;   // case split: same message or not
  }
  if (k == nmsgs) {
    vf_bound(nmsgs < MAXMSG, "number of hashed messages");
    msgs[k].md = md;
    msgs[k].len = n;
    msgs[k].data = malloc(n ? n : 1);
    memcpy(msgs[k].data, d, n);
    nmsgs++;
  }
  token(out, md->size, k + 1, (uint8_t)md->size);
}
int ossl_digest_index(const uint8_t *g, size_t n) {
  uint8_t t[64];
  for (unsigned k = 0; k < nmsgs; k++) {
    if ((size_t)msgs[k].md->size != n) continue;
    token(t, (int)n, k + 1, (uint8_t)n);
    if (memcmp(t, g, n) == 0) return (int)k;
  }
  return -1;
}

EVP_MD_CTX *EVP_MD_CTX_new(void) { if (fault()) return NULL; return zalloc(sizeof(EVP_MD_CTX)); }
void EVP_MD_CTX_free(EVP_MD_CTX *c) { if (c) EVP_PKEY_free(c->vkey); zfree(c); }
int EVP_DigestInit_ex(EVP_MD_CTX *c, const EVP_MD *md, ENGINE *e) {
  (void)e;
  if (fault()) return 0;
  if (md) c->md = md;
  if (!c->md) return 0;
  c->ready = 1;
  c->len = 0;
  return 1;
}
int EVP_DigestUpdate(EVP_MD_CTX *c, const void *d, size_t n) {
  if (fault()) return 0;
  if (n == 0) return 1;
  if (!c->ready) return 0;
  vf_bound(c->len + n <= OSSL_MSG_MAX, "length of a hashed message");
  memcpy(c->buf + c->len, d, n);
  c->len += n;
  return 1;
}
int EVP_DigestFinal_ex(EVP_MD_CTX *c, unsigned char *md, unsigned int *s) {
  if (fault()) return 0;
  if (!c->ready) return 0;
  ideal_hash(c->md, c->buf, c->len, md);
  if (s) *s = (unsigned)c->md->size;
  // The context is used up; continuing without re-initialisation hashes something else.
  static const uint8_t mark[4] = {0xfe, 0xed, 0xfa, 0xce};
  if (c->len + 4 <= OSSL_MSG_MAX) { memcpy(c->buf + c->len, mark, 4); c->len += 4; }
  return 1;
}
int EVP_Digest(const void *d, size_t n, unsigned char *md, unsigned int *s, const EVP_MD *t, ENGINE *e) {
  (void)e;
  if (fault()) return 0;
  vf_bound(n <= 100000, "length of a hashed message");
  ideal_hash(t, d, n, md);
  if (s) *s = (unsigned)t->size;
  return 1;
}
unsigned char *SHA256(const unsigned char *d, size_t n, unsigned char *md) { ideal_hash(&MDS[0], d, n, md); return md; }

// ------------------------------------------------------------------ objects
struct asn1_object_st { int nid; int dyn; unsigned char der[40]; int size; };
static struct asn1_object_st builtin_objs[NMDS];
static struct asn1_object_st *newobj(int nid) {
  struct asn1_object_st *o = NULL;
  for (int i = 0; i < NMDS; i++)
    if (MDS[i].nid == nid) o = &builtin_objs[i];  // built-in objects are static in OpenSSL
  if (!o) { o = zalloc(sizeof *o); o->dyn = 1; }
  o->nid = nid;
  for (int i = 0; i < NMDS; i++)
    if (MDS[i].nid == nid) { memcpy(o->der, MDS[i].oid, (size_t)MDS[i].oid_size); o->size = MDS[i].oid_size; }
  return o;
}
void ASN1_OBJECT_free(ASN1_OBJECT *o) { if (o && o->dyn) zfree(o); }
ASN1_OBJECT *d2i_ASN1_OBJECT(ASN1_OBJECT **a, const unsigned char **pp, long len) {
  const unsigned char *p = *pp;
  if (fault()) return NULL;
  if (len < 2 || p[0] != 6 || p[1] > 0x7f || (long)p[1] + 2 > len || p[1] == 0) return NULL;
  int nid = NID_undef;
  for (int i = 0; i < NMDS; i++)
    if (p[1] + 2 == MDS[i].oid_size && memcmp(p, MDS[i].oid, (size_t)MDS[i].oid_size) == 0) nid = MDS[i].nid;
  ASN1_OBJECT *o = newobj(nid);
  if (a) *a = o;
  *pp = p + p[1] + 2;
  return o;
}
int i2d_ASN1_OBJECT(const ASN1_OBJECT *o, unsigned char **pp) {
  if (fault()) return 0;
  if (!*pp) { *pp = vf_malloc((size_t)o->size); if (!*pp) return 0; }
  memcpy(*pp, o->der, (size_t)o->size);
  return o->size;
}
static int ieq(const char *a, const char *b) {
  for (; *a && *b; a++, b++) {
    char x = *a, y = *b;
    if (x >= 'a' && x <= 'z') x = (char)(x - 32);
    if (y >= 'a' && y <= 'z') y = (char)(y - 32);
    if (x != y) return 0;
  }
  return *a == *b;
}
ASN1_OBJECT *OBJ_txt2obj(const char *s, int no_name) {
  (void)no_name;
  if (fault()) return NULL;
  static const char *oids[] = {"2.16.840.1.101.3.4.2.1", "2.16.840.1.101.3.4.2.2", "2.16.840.1.101.3.4.2.3", "1.3.14.3.2.26"};
  for (int i = 0; i < NMDS; i++)
    if (ieq(s, MDS[i].sn) || strcmp(s, oids[i]) == 0) return newobj(MDS[i].nid);
  if (s[0] >= '0' && s[0] <= '9') return newobj(NID_undef);
  return NULL;
}
int OBJ_obj2nid(const ASN1_OBJECT *o) { return o ? o->nid : 0; }
const char *OBJ_nid2sn(int n) {
  for (int i = 0; i < NMDS; i++) if (MDS[i].nid == n) return MDS[i].sn;
  return "UNDEF";
}
const EVP_MD *EVP_get_digestbyname(const char *n) {
  for (int i = 0; i < NMDS; i++) if (strcmp(MDS[i].sn, n) == 0) return &MDS[i];
  return NULL;
}
int OBJ_obj2txt(char *b, int n, const ASN1_OBJECT *o, int no_name) {
  (void)no_name;
  const char *s = OBJ_nid2sn(o->nid);
  int i = 0;
  for (; s[i] && i < n - 1; i++) b[i] = s[i];
  b[i] = 0;
  return i;
}

// ------------------------------------------------------------------ BIO and PEM
struct bio_st { uint8_t *d; size_t n; size_t pos; int own; };
const BIO_METHOD *BIO_s_mem(void) { return (const BIO_METHOD *)MDS; }
BIO *BIO_new(const BIO_METHOD *m) {
  (void)m;
  if (fault()) return NULL;
  BIO *b = zalloc(sizeof *b);
  b->own = 1;
  return b;
}
BIO *BIO_new_mem_buf(const void *d, int n) {
  if (!d) return NULL;
  if (fault()) return NULL;
  BIO *b = zalloc(sizeof *b);
  b->d = (uint8_t *)d;
  b->n = n < 0 ? strlen(d) : (size_t)n;
  return b;
}
int BIO_free(BIO *b) {
  if (!b) return 0;
  if (b->own) free(b->d);
  zfree(b);
  return 1;
}
static void bio_put(BIO *b, const void *d, size_t n) {
  b->d = realloc(b->d, b->n + n);
  memcpy(b->d + b->n, d, n);
  b->n += n;
}
int BIO_puts(BIO *b, const char *s) { if (fault()) return -1; bio_put(b, s, strlen(s)); return (int)strlen(s); }
long BIO_ctrl(BIO *b, int cmd, long l, void *p) {
  (void)l;
  if (cmd == BIO_CTRL_INFO) { if (p) *(char **)p = (char *)b->d; return (long)b->n; }
  return 0;
}
#define PUBLEN 6
struct evp_pkey_st { char id; int priv; int refs; };
static int is_rsa(char id) { return id >= 'R' && id <= 'Z'; }
static int good_id(char id) { return id >= 'A' && id <= 'Z'; }
static EVP_PKEY *newkey(char id, int priv) {
  EVP_PKEY *k = zalloc(sizeof *k);
  k->id = id; k->priv = priv; k->refs = 1;
  return k;
}
// private keys: "PRIV<id>"; public keys "-PUB<id>\n", RSA "-PUB<id>+\n" (a different length, as in reality)
EVP_PKEY *PEM_read_bio_PrivateKey(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u) {
  (void)x; (void)cb; (void)u;
  if (!b || fault()) return NULL;
  if (b->n < 5 || memcmp(b->d, "PRIV", 4) || !good_id((char)b->d[4])) return NULL;
  return newkey((char)b->d[4], 1);
}
EVP_PKEY *PEM_read_bio_PUBKEY(BIO *b, EVP_PKEY **x, pem_password_cb *cb, void *u) {
  (void)x; (void)cb; (void)u;
  if (!b || fault()) return NULL;
  if (b->n < PUBLEN || memcmp(b->d, "-PUB", 4) || !good_id((char)b->d[4])) return NULL;
  if (is_rsa((char)b->d[4]) ? (b->n < PUBLEN + 1 || b->d[5] != '+' || b->d[6] != '\n') : b->d[5] != '\n') return NULL;
  return newkey((char)vf_concretize(b->d[4]), 0);
}
int PEM_write_bio_PUBKEY(BIO *b, const EVP_PKEY *k) {
  if (fault()) return 0;
  uint8_t t[PUBLEN + 1] = {'-', 'P', 'U', 'B', (uint8_t)k->id, '\n', '\n'};
  if (is_rsa(k->id)) t[5] = '+';
  bio_put(b, t, is_rsa(k->id) ? PUBLEN + 1 : PUBLEN);
  return 1;
}
int PEM_write_bio_PrivateKey(BIO *b, const EVP_PKEY *k, const EVP_CIPHER *c, const unsigned char *s, int n, pem_password_cb *cb, void *u) {
  (void)c; (void)s; (void)n; (void)cb; (void)u;
  if (fault()) return 0;
  uint8_t t[5] = {'P', 'R', 'I', 'V', (uint8_t)k->id};
  bio_put(b, t, 5);
  return 1;
}
// A small file system for the functions that write keys to files. Data is on disk once the file is closed.
typedef struct { char path[40]; int exists; uint8_t d[16]; size_t n; int broken; } file_t;
static file_t files[4];
static file_t *open_file;
int fs_fault_budget = 0, fs_faults = 0, fs_open_files = 0;
static int fs_fault_(const char *where) {
  if (fs_fault_budget <= 0 || !vf_choice("fs_fault", 2)) return 0;
  fs_fault_budget--;
  fs_faults++;
  vf_trace(where, 0);
  return 1;
}
#define fs_fault() fs_fault_(__func__)
static file_t *find_file(const char *path) {
  for (int i = 0; i < 4; i++) if (files[i].exists && strcmp(files[i].path, path) == 0) return &files[i];
  return NULL;
}
int fs_count(void) { int n = 0; for (int i = 0; i < 4; i++) n += files[i].exists; return n; }
const uint8_t *fs_file(const char *path, size_t *n) { file_t *f = find_file(path); if (f) *n = f->n; return f ? f->d : NULL; }
const char *fs_name(int i) { for (int k = 0; k < 4; k++) if (files[k].exists && i-- == 0) return files[k].path; return NULL; }
FILE *vf_fopen(const char *path, const char *mode) {
  if (mode[0] != 'w' || strlen(path) >= sizeof files[0].path || fs_fault()) return NULL;
  file_t *f = find_file(path);
  for (int i = 0; !f && i < 4; i++) if (!files[i].exists) f = &files[i];
  vf_bound(f && !open_file, "files");
  strcpy(f->path, path);
  f->exists = 1;
  f->n = 0;
  f->broken = 0;
  open_file = f;
  fs_open_files++;
  return (FILE *)f;
}
size_t vf_fwrite(const void *d, size_t a, size_t b, FILE *h) {
  file_t *f = (file_t *)h;
  vf_assert(f == open_file, "only an open file is written");
  if (fs_fault()) return 0;
  vf_bound(f->n + a * b <= sizeof f->d, "size of a file");
  memcpy(f->d + f->n, d, a * b);
  f->n += a * b;
  return b;
}
int vf_fflush(FILE *h) {
  file_t *f = (file_t *)h;
  vf_assert(f == open_file, "only an open file is flushed");
  if (!fs_fault()) return 0;
  f->broken = 1;  // what was written before is lost
  return EOF;
}
int vf_fclose(FILE *h) {
  file_t *f = (file_t *)h;
  vf_assert(f == open_file, "only an open file is closed");
  if (fs_fault()) f->broken = 1;
  open_file = NULL;
  fs_open_files--;
  if (f->broken) { f->n = f->n ? 1 : 0; return EOF; }
  return 0;
}
int vf_unlink(const char *path) {
  file_t *f = find_file(path);
  if (!f) return -1;
  f->exists = 0;
  return 0;
}
void fs_put(const char *path, const char *d) { FILE *f = vf_fopen(path, "w"); vf_fwrite(d, 1, strlen(d), f); vf_fclose(f); }
int PEM_write_PrivateKey(FILE *f, const EVP_PKEY *k, const EVP_CIPHER *c, const unsigned char *s, int n, pem_password_cb *cb, void *u) {
  (void)c; (void)s; (void)n; (void)cb; (void)u;
  if (fault()) return 0;
  uint8_t t[5] = {'P', 'R', 'I', 'V', (uint8_t)k->id};
  if (vf_fwrite(t, 1, 2, f) != 2) return 0;
  return vf_fwrite(t + 2, 1, 3, f) == 3;
}
EVP_PKEY *EVP_PKEY_Q_keygen(OSSL_LIB_CTX *l, const char *p, const char *type, ...) {
  (void)l; (void)p;
  static int gen;
  if (fault()) return NULL;
  vf_bound(gen < 7, "generated keys");
  return newkey((char)((type[0] == 'R' ? 'S' : 'F') + gen++), 1);
}
const char *OSSL_EC_curve_nid2name(int nid) { (void)nid; return "P-256"; }
void EVP_PKEY_free(EVP_PKEY *k) { if (k && --k->refs == 0) zfree(k); }
int EVP_PKEY_get_size(const EVP_PKEY *k) { (void)k; return ossl_max_sig; }
int EVP_PKEY_get_base_id(const EVP_PKEY *k) { return is_rsa(k->id) ? EVP_PKEY_RSA : EVP_PKEY_EC; }
int EVP_PKEY_get_group_name(const EVP_PKEY *k, char *n, size_t sz, size_t *len) {
  const char *g = k->id == 'Q' ? "secp384r1" : "prime256v1";  // key Q is on another curve
  if (sz) { strncpy(n, g, sz); n[sz - 1] = 0; }
  if (len) *len = strlen(g);
  return 1;
}
size_t EVP_PKEY_get1_encoded_public_key(EVP_PKEY *k, unsigned char **pp) {
  *pp = vf_malloc(65);
  if (!*pp) return 0;
  for (int i = 0; i < 65; i++) (*pp)[i] = (unsigned char)(i + k->id);
  (*pp)[0] = 4;
  return 65;
}
struct evp_pkey_ctx_st { EVP_PKEY *k; int op; int pad; const EVP_MD *md; };
EVP_PKEY_CTX *EVP_PKEY_CTX_new(EVP_PKEY *k, ENGINE *e) {
  (void)e;
  if (!k || fault()) return NULL;
  EVP_PKEY_CTX *c = zalloc(sizeof *c);
  c->k = k;
  k->refs++;
  return c;
}
void EVP_PKEY_CTX_free(EVP_PKEY_CTX *c) { if (!c) return; EVP_PKEY_free(c->k); zfree(c); }
EVP_PKEY *EVP_PKEY_CTX_get0_pkey(EVP_PKEY_CTX *c) { return c->k; }
int EVP_PKEY_sign_init(EVP_PKEY_CTX *c) { if (fault()) return 0; c->op = 1; return 1; }
int EVP_PKEY_verify_init(EVP_PKEY_CTX *c) { if (fault()) return 0; c->op = 2; return 1; }
int EVP_PKEY_CTX_set_rsa_padding(EVP_PKEY_CTX *c, int p) { if (fault()) return 0; c->pad = p; return 1; }
int EVP_PKEY_CTX_set_signature_md(EVP_PKEY_CTX *c, const EVP_MD *m) { if (fault()) return 0; c->md = m; return 1; }

#define MAXSIG 80
static struct { char key; int rsa; size_t hlen; uint8_t hash[64]; size_t slen; uint8_t sig[64]; } sigs[MAXSIG];
static int nsigs;
int ossl_signed_index(const uint8_t *s, size_t n) {
  for (int i = 0; i < nsigs; i++) if (sigs[i].slen == n && memcmp(sigs[i].sig, s, n) == 0) return i;
  return -1;
}
int ossl_num_sigs(void) { return nsigs; }
const uint8_t *ossl_sig_bytes(int i, size_t *n) { *n = sigs[i].slen; return sigs[i].sig; }
int ossl_sig_msg(int i) { return ossl_digest_index(sigs[i].hash, sigs[i].hlen); }
int ossl_sign_fault_budget = 0;
int EVP_PKEY_sign(EVP_PKEY_CTX *c, unsigned char *sig, size_t *siglen, const unsigned char *h, size_t n) {
  if (fault()) return 0;
  if (sig && ossl_sign_fault_budget > 0 && vf_choice("sign_fault", 2)) { ossl_sign_fault_budget--; ossl_faults++; return 0; }
  if (c->op != 1 || !c->k->priv) return -1;
  if (n == 0 || n > 64 || !h) return -1;
  if (!sig) { *siglen = (size_t)ossl_max_sig; return 1; }
  ossl_sign_calls++;
  size_t len = ossl_sig_size_fixed ? (size_t)ossl_sig_size_fixed : (size_t)ossl_max_sig - vf_choice("sig_short", 3);
  vf_bound(nsigs < MAXSIG, "number of signatures");
  sigs[nsigs].key = c->k->id;
  sigs[nsigs].hlen = n;
  memcpy(sigs[nsigs].hash, h, n);
  sigs[nsigs].slen = len;
  if (ossl_sig_symbolic) vf_sym(sigs[nsigs].sig, len, "sig_bytes");
  else token(sigs[nsigs].sig, (int)len, (unsigned)nsigs + 1, 0x99);
  memcpy(sig, sigs[nsigs].sig, len);
  *siglen = len;
  nsigs++;
  return 1;
}
size_t ossl_digest(const char *sn, const uint8_t *d, size_t n, uint8_t *out) {
  for (int i = 0; i < NMDS; i++)
    if (ieq(sn, MDS[i].sn)) { ideal_hash(&MDS[i], d, n, out); return (size_t)MDS[i].size; }
  return 0;
}
size_t ossl_sign_digest(char key, const uint8_t *h, size_t n, uint8_t *sig) {
  vf_bound(nsigs < MAXSIG, "number of signatures");
  size_t len = (size_t)ossl_sig_size_fixed;
  sigs[nsigs].key = key;
  sigs[nsigs].hlen = n;
  memcpy(sigs[nsigs].hash, h, n);
  sigs[nsigs].slen = len;
  token(sigs[nsigs].sig, (int)len, (unsigned)nsigs + 1, 0x99);
  memcpy(sig, sigs[nsigs].sig, len);
  nsigs++;
  return len;
}
int ossl_verify_bad = 0;
static int pkey_verify(EVP_PKEY_CTX *c, const unsigned char *sig, size_t siglen, const unsigned char *h, size_t n);
int EVP_PKEY_verify(EVP_PKEY_CTX *c, const unsigned char *sig, size_t siglen, const unsigned char *h, size_t n) {
  int r = pkey_verify(c, sig, siglen, h, n);
  ossl_verify_bad += r != 1;
  return r;
}
static int pkey_verify(EVP_PKEY_CTX *c, const unsigned char *sig, size_t siglen, const unsigned char *h, size_t n) {
  ossl_verify_calls++;
  if (fault()) return ossl_last_verify = -1;
  if (ossl_verify_mode == 1) return ossl_last_verify = 1 - (int)vf_choice("verify_result", 3);
  if (c->op != 2) return ossl_last_verify = -1;
  int r = 0;
  for (int i = 0; i < nsigs; i++) {
    if (sigs[i].key != c->k->id || sigs[i].hlen != n || sigs[i].slen != siglen) continue;
    if (memcmp(sigs[i].hash, h, n) == 0 && memcmp(sigs[i].sig, sig, siglen) == 0) { r = 1; break; }
  }
  // What is no signature at all may be rejected with an error instead of a negative answer.
  static int malformed;
  if (!r && ossl_signed_index(sig, siglen) < 0) {
    if (!malformed) malformed = 1 + (int)vf_choice("malformed_signature_is_error", 2);
    r = malformed == 2 ? -1 : 0;
  }
  return ossl_last_verify = r;
}

// ------------------------------------------------------------------ vendor: X509 and attestation
ossl_cert_t ossl_certs[4];
int ossl_attest_mode = 0;
struct x509_st { const ossl_cert_t *c; int root; EVP_PKEY *k; };
X509 *PEM_read_bio_X509(BIO *b, X509 **x, pem_password_cb *cb, void *u) {
  (void)x; (void)cb; (void)u;
  if (!b || fault()) return NULL;
  // find the next BEGIN line
  static const char beg[] = "-----BEGIN CERTIFICATE-----\n", end[] = "-----END CERTIFICATE-----";
  size_t bl = sizeof beg - 1, el = sizeof end - 1;
  while (b->pos + bl <= b->n && memcmp(b->d + b->pos, beg, bl)) b->pos++;
  if (b->pos + bl >= b->n) return NULL;
  size_t p = b->pos + bl;
  size_t q = p;
  while (q + el <= b->n && memcmp(b->d + q, end, el)) q++;
  if (q + el > b->n) return NULL;
  b->pos = q + el;
  X509 *r = zalloc(sizeof *r);
  if (q - p > 40) { r->root = 1; return r; }
  for (int i = 0; i < 4; i++)
    if (ossl_certs[i].id && b->d[p] == (uint8_t)ossl_certs[i].id) { r->c = &ossl_certs[i]; r->k = newkey(ossl_certs[i].key, 0); return r; }
  zfree(r);
  return NULL;
}
void X509_free(X509 *x) { if (!x) return; EVP_PKEY_free(x->k); zfree(x); }
struct stack_st { int n; X509 *v[8]; };
OPENSSL_STACK *OPENSSL_sk_new_null(void) { if (fault()) return NULL; return zalloc(sizeof(struct stack_st)); }
void OPENSSL_sk_zero(OPENSSL_STACK *s) { s->n = 0; }
int OPENSSL_sk_push(OPENSSL_STACK *s, const void *d) {
  vf_bound(s->n < 8, "certificates");
  s->v[s->n++] = (X509 *)d;
  return s->n;
}
void *OPENSSL_sk_value(const OPENSSL_STACK *s, int i) { return s && i >= 0 && i < s->n ? s->v[i] : NULL; }
int OPENSSL_sk_num(const OPENSSL_STACK *s) { return s ? s->n : -1; }
void OPENSSL_sk_pop_free(OPENSSL_STACK *s, void (*f)(void *)) {
  (void)f;
  if (!s) return;
  for (int i = 0; i < s->n; i++) X509_free(s->v[i]);
  zfree(s);
}
struct x509_store_st { X509 *ca; };
struct x509_store_ctx_st { X509_STORE *st; X509 *leaf; };
X509_STORE *X509_STORE_new(void) { if (fault()) return NULL; return zalloc(sizeof(X509_STORE)); }
void X509_STORE_free(X509_STORE *s) { zfree(s); }
int X509_STORE_add_cert(X509_STORE *s, X509 *x) { if (fault()) return 0; s->ca = x; return 1; }
X509_STORE_CTX *X509_STORE_CTX_new(void) { if (fault()) return NULL; return zalloc(sizeof(X509_STORE_CTX)); }
void X509_STORE_CTX_free(X509_STORE_CTX *c) { zfree(c); }
int X509_STORE_CTX_init(X509_STORE_CTX *c, X509_STORE *s, X509 *x, STACK_OF(X509) *ch) { (void)ch; if (fault()) return 0; c->st = s; c->leaf = x; return 1; }
int ossl_chain_ok_asked = 0;
int X509_verify_cert(X509_STORE_CTX *c) {
  ossl_chain_ok_asked++;
  if (fault()) return 0;
  if (!c->leaf || !c->st || !c->st->ca || !c->st->ca->root || !c->leaf->c) return 0;
  return c->leaf->c->chain_ok;
}
X509_NAME *X509_get_subject_name(const X509 *x) { return (X509_NAME *)x; }
int X509_NAME_get_index_by_NID(const X509_NAME *n, int nid, int last) {
  (void)last;
  const X509 *x = (const X509 *)n;
  if (nid == NID_commonName) return x->c && x->c->cn ? 0 : -1;
  if (nid == NID_serialNumber) return x->c && x->c->sn ? 1 : -1;
  return -1;
}
struct X509_name_entry_st { const char *s; };
static struct X509_name_entry_st ents[2];
X509_NAME_ENTRY *X509_NAME_get_entry(const X509_NAME *n, int loc) {
  const X509 *x = (const X509 *)n;
  ents[loc].s = loc ? x->c->sn : x->c->cn;
  return &ents[loc];
}
ASN1_STRING *X509_NAME_ENTRY_get_data(const X509_NAME_ENTRY *e) { return (ASN1_STRING *)e->s; }
int ASN1_STRING_to_UTF8(unsigned char **out, const ASN1_STRING *in) {
  if (fault()) return -1;
  const char *s = (const char *)in;
  size_t n = strlen(s);
  *out = vf_malloc(n + 1);
  if (!*out) return -1;
  memcpy(*out, s, n + 1);
  return (int)n;
}
EVP_PKEY *X509_get0_pubkey(const X509 *x) { return x->k; }
void CRYPTO_free(void *p, const char *f, int l) { (void)f; (void)l; vf_free(p); }
int EVP_DigestVerifyInit(EVP_MD_CTX *c, EVP_PKEY_CTX **p, const EVP_MD *t, ENGINE *e, EVP_PKEY *k) {
  (void)p; (void)e;
  if (fault()) return 0;
  c->md = t;
  EVP_PKEY_free(c->vkey);
  c->vkey = k;
  k->refs++;
  c->ready = 1;
  return 1;
}
static struct { char key; size_t n; uint8_t data[256]; size_t sl; uint8_t sig[16]; } atts[6];
static int natts;
int ossl_attest_sign(char key, const uint8_t *d, size_t n, uint8_t *sig) {
  atts[natts].key = key;
  atts[natts].n = n;
  memcpy(atts[natts].data, d, n);
  atts[natts].sl = 8;
  token(atts[natts].sig, 8, (unsigned)natts + 1, 0x77);
  memcpy(sig, atts[natts].sig, 8);
  natts++;
  return 8;
}
int ossl_attest_calls = 0, ossl_attest_last = -2;
uint8_t ossl_attest_data[256];
size_t ossl_attest_n;
char ossl_attest_key;
int EVP_DigestVerify(EVP_MD_CTX *c, const unsigned char *s, size_t sl, const unsigned char *d, size_t n) {
  ossl_attest_calls++;
  if (fault()) return ossl_attest_last = -1;
  ossl_attest_n = n < 256 ? n : 256;
  memcpy(ossl_attest_data, d, ossl_attest_n);
  ossl_attest_key = c->vkey ? c->vkey->id : 0;
  if (ossl_attest_mode == 1) return ossl_attest_last = 1 - (int)vf_choice("attest_result", 3);
  for (int i = 0; i < natts; i++)
    if (c->vkey && atts[i].key == c->vkey->id && atts[i].n == n && atts[i].sl == sl &&
        memcmp(atts[i].data, d, n) == 0 && memcmp(atts[i].sig, s, sl) == 0) return ossl_attest_last = 1;
  return ossl_attest_last = 0;
}
