/* C19: the ciphers against the standard algorithm */
#include "common.h"
#include "mod.h"
static const unsigned char KEY[] = "f29baf6ff9f9acb2cbf6441cd8eb29e4", IV[] = "tanxaes_deadbeef";
static void fill(unsigned char *b, int n, int pat) { for (int i = 0; i < n; i++) b[i] = pat == 0 ? 0 : pat == 1 ? 0xff : pat == 2 ? i * 37 + 11 : "\x80\x00\x7f\x0a"[i % 4]; }
static int ref(const EVP_CIPHER *c, int gcm, const unsigned char *in, int n, unsigned char *out, unsigned char *tag) { EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(); int l = 0, m = 0; EVP_EncryptInit_ex(x, c, NULL, NULL, NULL); if (gcm) EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_SET_IVLEN, 16, NULL); EVP_EncryptInit_ex(x, NULL, NULL, KEY, IV); EVP_EncryptUpdate(x, out, &l, in, n); EVP_EncryptFinal_ex(x, out + l, &m); if (gcm) EVP_CIPHER_CTX_ctrl(x, EVP_CTRL_GCM_GET_TAG, 16, tag); EVP_CIPHER_CTX_free(x); return l + m; }
static const int BIG[] = {2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 12287, 12288, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 100003};
static void cfb(long a) {
    int n = a < 0 ? BIG[mc_choose(20, 0, "length")] : a * 20 + mc_choose(20, 0, "length"), pat = mc_choose(4, 0, "content"), inplace = mc_choose(2, 0, "in place"); mod_begin();
    unsigned char *p = malloc(n + 1), *c = malloc(n + 1), *d = malloc(n + 1), *r = malloc(n + 64); fill(p, n, pat); int bad = 0, k = ref(EVP_aes_256_cfb8(), 0, p, n, r, NULL);
    unsigned char *in = malloc(n ? n : 1), *out = inplace ? in : malloc(n ? n : 1); memcpy(in, p, n);
    int e = aes_cfb_encrypt(in, n, out); if (e != n) bad = 1; else if (k != n || memcmp(out, r, n)) bad = 2; memcpy(c, out, n);
    if (!bad) { memcpy(in, c, n); int x = aes_cfb_decrypt(in, n, out); if (x != n) bad = 3; else if (memcmp(out, p, n)) bad = 4; }
    if (!inplace) free(out); free(in); free(p); free(c); free(d); free(r); mc_trans(2); mc_state(mc_mix(n * 4 + pat, 1)); mc_outcome(n);
    if (bad) mc_fail("CFB, %d bytes: %s", n, bad == 1 ? "the ciphertext has another length" : bad == 2 ? "the ciphertext is not what AES-256-CFB8 gives" : bad == 3 ? "the decrypted text has another length" : "the decrypted text is not the original");
    if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
static int seal(unsigned char *p, int n, unsigned char *c, char *tag) { sys_cipher_t *x = NULL; if (sys_aesgcm_ctx_init(&x, 0)) return -2; int r = sys_aesgcm_enc(x, p, n, c, tag); sys_aesgcm_ctx_exit(x); return r; }
static int unseal(unsigned char *c, int n, unsigned char *p, char *tag) { sys_cipher_t *x = NULL; if (sys_aesgcm_ctx_init(&x, 1)) return -2; int r = sys_aesgcm_dec(x, c, n, p, tag); sys_aesgcm_ctx_exit(x); return r; }
static void gcm(long a) {
    int n = a < 0 ? BIG[mc_choose(20, 0, "length")] : a * 20 + mc_choose(20, 0, "length"), pat = mc_choose(4, 0, "content"), bad = 0; mod_begin();
    unsigned char *p = malloc(n ? n : 1), *c = malloc(n ? n : 1), *d = malloc(n ? n : 1), *r = malloc(n + 64), rt[16]; char *tag = malloc(16); fill(p, n, pat); ref(EVP_aes_256_gcm(), 1, p, n, r, rt);
    int e = seal(p, n, c, tag); if (e != n) bad = 1; else if (memcmp(c, r, n) || memcmp(tag, rt, 16)) bad = 2; else { e = unseal(c, n, d, tag); if (e != n) bad = 3; else if (memcmp(d, p, n)) bad = 4; }
    free(p); free(c); free(d); free(r); free(tag); mc_trans(2); mc_state(mc_mix(n * 4 + pat, 2)); mc_outcome(n);
    if (bad) mc_fail("GCM, %d bytes: %s", n, bad == 1 ? "the ciphertext has another length" : bad == 2 ? "ciphertext or tag are not what AES-256-GCM gives" : bad == 3 ? "the untouched ciphertext is refused" : "the decrypted text is not the original");
    if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
/* every single bit of ciphertext and tag; every truncation and extension */
static void flip(long n) {
    int nb = (n + 16) * 8, w = mc_choose(nb + 3 + n, 0, "change"), pat = mc_choose(2, 0, "content"); mod_begin();
    unsigned char *p = malloc(n + 1), *c = calloc(1, n + 1), *d = malloc(n + 1); char tag[16]; fill(p, n, pat * 2); int e = seal(p, n, c, tag), len = n, r;
    if (w < nb) { if (w / 8 < n) c[w / 8] ^= 1 << w % 8; else tag[w / 8 - n] ^= 1 << w % 8; } else if (w == nb) len = n + 1; else if (w == nb + 1) memset(tag, 0, 16); else if (w == nb + 2) memset(tag, 0xff, 16); else len = w - nb - 3;
    r = unseal(c, len, d, tag); free(p); free(c); free(d); mc_trans(2); mc_state(mc_mix(n * 2 + pat, w)); mc_outcome(r);
    if (e != n) mc_fail("GCM, %ld bytes: encryption fails", n);
    if (r >= 0) mc_fail("GCM, %ld bytes: %s is accepted", n, w < nb ? (w / 8 < n ? "a ciphertext with one changed bit" : "a tag with one changed bit") : w == nb ? "a longer ciphertext" : w < nb + 3 ? "another tag" : "a shorter ciphertext");
    if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks());
}
/* every two changed bits of a short message */
static void flip2(long n) {
    int nb = (n + 16) * 8, i = mc_choose(nb, 0, "first bit"), j = mc_choose(nb, 0, "second bit"); if (j <= i) mc_prune(); mod_begin(); unsigned char p[32], c[32], d[32]; char tag[16]; fill(p, n, 2); seal(p, n, c, tag);
    int w[2] = {i, j}; for (int k = 0; k < 2; k++) if (w[k] / 8 < n) c[w[k] / 8] ^= 1 << w[k] % 8; else tag[w[k] / 8 - n] ^= 1 << w[k] % 8;
    mc_trans(2); mc_state(mc_mix(i, j)); if (unseal(c, n, d, tag) >= 0) mc_fail("GCM, %ld bytes: a message with two changed bits is accepted", n);
}
static void faults(long a) { mod_begin(); mod_faults("a"); sys_cipher_t *x = NULL; int r = sys_aesgcm_ctx_init(&x, mc_choose(2, 0, "direction")); mc_outcome(r); mc_trans(1); mc_state(r); if (!r) sys_aesgcm_ctx_exit(x); else if (!mod_injected()) mc_fail("no cipher"); if (mod_blocks()) mc_fail("%ld blocks are left", mod_blocks()); }
MOD_REGISTER(C19) {
    int t = mc_thorough();
    for (int i = 0; i < (t ? 400 : 100); i++) { mc_add(cfb, i, 0, "CFB, from %d bytes", i * 20); mc_add(gcm, i, 0, "GCM, from %d bytes", i * 20); }
    for (int n = 0; n <= (t ? 300 : 100); n++) mc_add(flip, n, 0, "GCM, %d bytes, changed", n);
    mc_add(cfb, -1, 0, "CFB, long"); mc_add(gcm, -1, 0, "GCM, long"); mc_add(flip, 1000, 0, "GCM, 1000 bytes, changed"); mc_add(flip, 4096, 0, "GCM, 4096 bytes, changed"); mc_add(flip2, 3, 0, "GCM, 3 bytes, two bits changed"); mc_add(faults, 0, 1, "no memory");
}
