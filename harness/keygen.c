// Generating private keys: into memory, into a file, or both; with faults of memory, the cryptographic
// library or the file system.
#include "common.h"
#include "includes/signed_video_openssl.h"
#ifndef FAULTS
#define FAULTS 0
#endif
static const char *const DIRS[] = {NULL, "d", "d/", "/a/b", "."};
static const char *const PATHS[2][5] = {{NULL, "d/private_rsa_key.pem", "d/private_rsa_key.pem", "/a/b/private_rsa_key.pem", "./private_rsa_key.pem"},
    {NULL, "d/private_ecdsa_key.pem", "d/private_ecdsa_key.pem", "/a/b/private_ecdsa_key.pem", "./private_ecdsa_key.pem"}};
static SignedVideoReturnCode generate(unsigned ec, bool old_api, const char *dir, char **key, size_t *n) {
  if (old_api) return signed_video_generate_private_key(ec ? SIGN_ALGO_ECDSA : SIGN_ALGO_RSA, dir, key, n);
  return ec ? signed_video_generate_ecdsa_private_key(dir, key, n) : signed_video_generate_rsa_private_key(dir, key, n);
}
static bool is_key(const uint8_t *d, size_t n, unsigned ec) {
  return n == 5 && memcmp(d, "PRIV", 4) == 0 && (ec ? d[4] >= 'A' && d[4] <= 'Q' : d[4] >= 'R' && d[4] <= 'Z');
}
static int hits(void) { return fs_faults + ossl_faults + vf_alloc_failed; }
static void inject(int n) {
#if FAULTS == 1
  fs_fault_budget = n;
#elif FAULTS == 2
  ossl_fault_budget = n;
#elif FAULTS == 3
  vf_alloc_fail_budget = n;
#endif
  (void)n;
}
void harness(void) {
  ossl_sig_size_fixed = 9;
  char used[4] = {0};
  for (int k = 0; k < TIMES; k++) {
    unsigned ec = vf_choice("ec", 2), dir = vf_choice("dir", 5), out = vf_choice("out", 4);
    bool old_api = vf_choice("old", 2);
    const char *path = PATHS[ec][dir];
    if (path && vf_choice("present", 2)) fs_put(path, "something longer");
    int before = fs_count();
    bool had = path && fs_file(path, &(size_t){0});
    char *key = NULL;
    size_t n = 0;
    inject(FAULTS ? 1 : 0);
    int h = hits();
    // The directory is in memory of exactly its size.
    char *d = NULL;
    if (dir) {
      d = malloc(strlen(DIRS[dir]) + 1);
      strcpy(d, DIRS[dir]);
    }
    SignedVideoReturnCode rc = generate(ec, old_api, d, out & 1 ? &key : NULL, out & 2 ? &n : NULL);
    inject(0);
    free(d);
    bool want_key = out == 3;
    vf_assert(fs_open_files == 0, "no file is left open");
    if (!path && !want_key) {
      vf_assert(rc == SV_INVALID_PARAMETER, "a request for nothing is refused");
      vf_assert(!key && !n && fs_count() == before, "a refused request has no effect");
      continue;
    }
    if (hits() == h) vf_assert(rc == SV_OK, "generating a key succeeds");
    size_t fn = 0;
    const uint8_t *f = path ? fs_file(path, &fn) : NULL;
    if (rc != SV_OK) {
      vf_reach("failed");
      vf_assert(!key && !n, "no key is delivered by a call that failed");
      // An existing key may have been overwritten, but never by a part of a key.
      if (f) vf_assert(is_key(f, fn, ec) || fn == 16, "no unusable key is left in the file");
      vf_assert(fs_count() <= before + (path && !had), "no other file is written");
      continue;
    }
    char id = 0;
    if (path) {
      vf_reach("file");
      vf_assert(f != NULL, "the file exists");
      vf_assert(is_key(f, fn, ec), "the file holds a complete key of the kind asked for");
      id = (char)f[4];
    }
    vf_assert(fs_count() == before + (path && !had), "no other file is written");
    if (want_key) {
      vf_reach("memory");
      vf_assert(key && is_key((uint8_t *)key, n, ec), "a complete key of the kind asked for is delivered");
      if (id) vf_assert(key[4] == id, "the file and the memory hold the same key");
      id = key[4];
      // The key can be used right away.
      if (k == 0 && !FAULTS) {
        signed_video_t *c = signed_video_create(CODEC);
        vf_assert(signed_video_set_private_key_new(c, key, n) == SV_OK, "the key can be used for signing");
        for (int i = 0; i < 3; i++) cam_add(c, mk_unit(CODEC, 'I', (uint8_t)i), NULL);
        signed_video_free(c);
        viewer_t v;
        viewer_init(&v, CODEC);
        for (int i = 0; i < nU; i++) viewer_feed(&v, &U[i]);
        vf_assert(v.n_ok >= 2 && v.n_notok == 0, "what the key signed is authentic");
        viewer_free(&v);
      }
      vf_free(key);
    } else vf_assert(!key, "no key is delivered that was not asked for");
    for (int i = 0; i < k; i++) vf_assert(used[i] != id, "every key is a new one");
    used[k] = id;
  }
  // A directory without a name, and unknown kinds of keys.
  char *e = malloc(1);
  e[0] = 0;
  unsigned ec = vf_choice("ec", 2);
  int before = fs_count();
  SignedVideoReturnCode rc = generate(ec, false, e, NULL, NULL);
  free(e);
  vf_assert(rc != SV_OK || fs_count() <= before + 1, "an empty name of a directory does no harm");
  int algo = (int)vf_u8("algo");
  if (algo != SIGN_ALGO_RSA && algo != SIGN_ALGO_ECDSA) {
    char *key = NULL;
    size_t n = 0;
    before = fs_count();
    rc = signed_video_generate_private_key((sign_algo_t)algo, "d", &key, &n);
    vf_assert(rc == SV_NOT_SUPPORTED && !key && !n && fs_count() == before, "an unknown kind of key is refused");
  }
  vf_reach("end");
}
