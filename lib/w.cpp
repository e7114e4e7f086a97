#define OPENSSL_API_COMPAT 0x10100000L
#define OPENSSL_SUPPRESS_DEPRECATED
#include "w.hpp"
#include <openssl/rand.h>
#include <openssl/crypto.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <atomic>
#include <unordered_map>
#include <sanitizer/asan_interface.h>

Bytes hex(const Bytes &s, size_t max)
{
    size_t n = s.size() < max ? s.size() : max; Bytes o(2 * n, 0);
    for (size_t i = 0; i < n; i++) { o[2 * i] = "0123456789abcdef"[(unsigned char)s[i] >> 4]; o[2 * i + 1] = "0123456789abcdef"[s[i] & 15]; }
    if (n < s.size()) o += "..(" + std::to_string(s.size()) + ")";
    return o;
}

// ---- randomness ----------------------------------------------------------------------------
uint64_t rng_requests; int64_t rng_fail_at = -1; static Rng rng_main; thread_local Rng *rng_own;
static Rng &rng() { return rng_own ? *rng_own : rng_main; }
void rng_seed(uint64_t s) { Rng &r = rng(); r.stream = mc::mix(s * 0x9e3779b97f4a7c15ull + mc::seed()); r.ctr = 0; rng_requests = 0; rng_fail_at = -1; }
static int rng_bytes(unsigned char *buf, int num)
{
    if ((int64_t)rng_requests++ == rng_fail_at) return 0;
    Rng &r = rng(); for (int i = 0; i < num; i += 8) { uint64_t v = mc::mix(r.stream ^ mc::mix(++r.ctr)); for (int j = 0; j < 8 && i + j < num; j++) buf[i + j] = (unsigned char)(v >> (8 * j)); }
    return 1;
}
static int rng_status() { return 1; }
static int rng_seedf(const void *, int) { return 1; }
static int rng_add(const void *, int, double) { return 1; }
void rng_install()
{
    static RAND_METHOD m = { rng_seedf, rng_bytes, nullptr, rng_add, rng_bytes, rng_status };
    RAND_set_rand_method(&m);
    rng_seed(0xfeed);
}

// ---- tracked allocation ----------------------------------------------------------------------
namespace trk {
bool on; int64_t count, fail_at = -1, fail_at2 = -1; void (*on_free)(void *, size_t);
struct Ent { void *p; size_t n; int64_t idx; };
static const size_t CAP = 1 << 16;
static Ent tab[CAP]; static size_t used;
static size_t slot(void *p) { return (mc::mix((uint64_t)p) & (CAP - 1)); }
static void ins(void *p, size_t n) { if (used > CAP / 2) { fprintf(stderr, "trk: table full\n"); abort(); } size_t i = slot(p); while (tab[i].p) i = (i + 1) & (CAP - 1); tab[i] = {p, n, count}; used++; }
static bool del(void *p, size_t *n) {
    size_t i = slot(p); while (tab[i].p) { if (tab[i].p == p) { *n = tab[i].n; size_t j = i; for (;;) { j = (j + 1) & (CAP - 1); if (!tab[j].p) break; size_t k = slot(tab[j].p); if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue; tab[i] = tab[j]; i = j; } tab[i].p = nullptr; used--; return true; } i = (i + 1) & (CAP - 1); }
    return false;
}
void reset() { if (used) memset(tab, 0, sizeof tab); used = 0; count = 0; fail_at = fail_at2 = -1; }
size_t live() { return used; }
std::string describe_live() { std::string s; for (size_t i = 0; i < CAP; i++) if (tab[i].p) { s += "#" + std::to_string(tab[i].idx) + ":" + std::to_string(tab[i].n) + "B "; if (s.size() > 300) break; } return s; }
void each_live(const std::function<void(void *, size_t)> &f) { for (size_t i = 0; i < CAP; i++) if (tab[i].p) f(tab[i].p, tab[i].n); }
}
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
static bool trk_fail() { int64_t k = trk::count++; return k == trk::fail_at || k == trk::fail_at2; }
void *__wrap_malloc(size_t n) { if (!trk::on) return __real_malloc(n); if (trk_fail()) return nullptr; void *p = __real_malloc(n); if (p) trk::ins(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (!trk::on) return __real_calloc(a, b); if (trk_fail()) return nullptr; void *p = __real_calloc(a, b); if (p) trk::ins(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) {
    if (!trk::on) return __real_realloc(q, n);
    if (trk_fail()) return nullptr;
    void *p = __real_malloc(n); if (!p) return nullptr;
    size_t m = 0; if (q) { bool had = trk::del(q, &m); if (!had) { __real_free(p); return __real_realloc(q, n); } memcpy(p, q, m < n ? m : n); if (trk::on_free) trk::on_free(q, m); __real_free(q); }
    trk::ins(p, n); return p;
}
char *__wrap_strdup(const char *s) { if (!trk::on) return __real_strdup(s); size_t n = strlen(s) + 1; if (trk_fail()) return nullptr; char *p = (char *)__real_malloc(n); if (p) { memcpy(p, s, n); trk::ins(p, n); } return p; }
void __wrap_free(void *p) { if (p) { size_t n; if (trk::del(p, &n) && trk::on_free) trk::on_free(p, n); } __real_free(p); }

}
extern "C" { int kdf_real_flag; }
int &kdf_real = kdf_real_flag;


// ---- OpenSSL's own memory: only counted ------------------------------------------------------
static std::atomic<int64_t> ossl_n{0};
int64_t ossl_blocks() { return ossl_n; }
__attribute__((constructor(101))) static void ossl_mem()
{
    CRYPTO_set_mem_functions([](size_t n, const char *, int) -> void * { void *p = __real_malloc(n); if (p) ossl_n++; return p; },
        [](void *q, size_t n, const char *, int) -> void * { if (!n && q) { __real_free(q); ossl_n--; return nullptr; } void *p = __real_realloc(q, n); if (p && !q) ossl_n++; return p; },
        [](void *p, const char *, int) { if (p) { __real_free(p); ossl_n--; } });
}

// ---- engines -----------------------------------------------------------------------------------
wickr_crypto_engine_t real_engine() { return wickr_crypto_engine_get_default(); }
const char *engine_call_name[EC_N] = { "random", "cipher_key_random", "encrypt", "decrypt", "encrypt_file", "decrypt_file", "encrypt_ofile", "decrypt_ofile", "digest", "digest_file", "ec_rand_key", "ec_key_import", "ec_sign", "ec_verify", "ecdsa_to_raw", "ecdsa_from_raw", "gen_shared_secret", "hmac_create", "hmac_verify", "kdf_gen", "kdf_meta" };
Spy spy;
static bool sb(int k) { spy.calls[k]++; if (spy.yield_point) spy.yield_point(); return spy.before ? spy.before(k) : true; }
wickr_crypto_engine_t spy_engine(const wickr_crypto_engine_t &base)
{
    spy.base = base; spy.before = nullptr; spy.encrypted = nullptr; spy.yield_point = nullptr; memset(spy.calls, 0, sizeof spy.calls);
    wickr_crypto_engine_t e = base;
    e.wickr_crypto_engine_crypto_random = [](size_t n) -> wickr_buffer_t * { return sb(EC_RANDOM) ? spy.base.wickr_crypto_engine_crypto_random(n) : nullptr; };
    e.wickr_crypto_engine_cipher_key_random = [](wickr_cipher_t c) -> wickr_cipher_key_t * { return sb(EC_KEYRAND) ? spy.base.wickr_crypto_engine_cipher_key_random(c) : nullptr; };
    e.wickr_crypto_engine_cipher_encrypt = [](const wickr_buffer_t *p, const wickr_buffer_t *a, const wickr_cipher_key_t *k, const wickr_buffer_t *iv) -> wickr_cipher_result_t * { if (!sb(EC_ENC)) return nullptr; if (spy.plain) { Bytes alt = str(p); spy.plain(alt); Exact x(alt); return spy.base.wickr_crypto_engine_cipher_encrypt(x, a, k, iv); } wickr_cipher_result_t *r = spy.base.wickr_crypto_engine_cipher_encrypt(p, a, k, iv); if (r && spy.encrypted) spy.encrypted(k, r, p); return r; };
    e.wickr_crypto_engine_cipher_decrypt = [](const wickr_cipher_result_t *c, const wickr_buffer_t *a, const wickr_cipher_key_t *k, bool o) -> wickr_buffer_t * { return sb(EC_DEC) ? spy.base.wickr_crypto_engine_cipher_decrypt(c, a, k, o) : nullptr; };
    e.wickr_crypto_engine_encrypt_file = [](const wickr_cipher_key_t *k, const char *s, const char *d) -> bool { return sb(EC_FENC) ? spy.base.wickr_crypto_engine_encrypt_file(k, s, d) : false; };
    e.wickr_crypto_engine_decrypt_file = [](const wickr_cipher_key_t *k, const char *s, const char *d, bool o) -> bool { return sb(EC_FDEC) ? spy.base.wickr_crypto_engine_decrypt_file(k, s, d, o) : false; };
    e.wickr_crypto_engine_encrypt_ofile = [](FILE *i, const wickr_cipher_key_t *k, FILE *o) -> bool { return sb(EC_OFENC) ? spy.base.wickr_crypto_engine_encrypt_ofile(i, k, o) : false; };
    e.wickr_crypto_engine_decrypt_ofile = [](FILE *i, const wickr_cipher_key_t *k, FILE *o, bool a) -> bool { return sb(EC_OFDEC) ? spy.base.wickr_crypto_engine_decrypt_ofile(i, k, o, a) : false; };
    e.wickr_crypto_engine_digest = [](const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t m) -> wickr_buffer_t * { return sb(EC_DIGEST) ? spy.base.wickr_crypto_engine_digest(b, s, m) : nullptr; };
    e.wickr_crypto_engine_digest_file = [](FILE *f, const wickr_digest_t m) -> wickr_buffer_t * { return sb(EC_DIGESTF) ? spy.base.wickr_crypto_engine_digest_file(f, m) : nullptr; };
    e.wickr_crypto_engine_ec_rand_key = [](wickr_ec_curve_t c) -> wickr_ec_key_t * { return sb(EC_ECRAND) ? spy.base.wickr_crypto_engine_ec_rand_key(c) : nullptr; };
    e.wickr_crypto_engine_ec_key_import = [](const wickr_buffer_t *b, bool p) -> wickr_ec_key_t * { return sb(EC_ECIMPORT) ? spy.base.wickr_crypto_engine_ec_key_import(b, p) : nullptr; };
    e.wickr_crypto_engine_ec_sign = [](const wickr_ec_key_t *k, const wickr_buffer_t *d, const wickr_digest_t m) -> wickr_ecdsa_result_t * { return sb(EC_SIGN) ? spy.base.wickr_crypto_engine_ec_sign(k, d, m) : nullptr; };
    e.wickr_crypto_engine_ec_verify = [](const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, const wickr_buffer_t *d) -> bool { return sb(EC_VERIFY) ? spy.base.wickr_crypto_engine_ec_verify(s, k, d) : false; };
    e.wickr_crypto_engine_ecdsa_to_raw = [](const wickr_ecdsa_result_t *i) -> wickr_buffer_t * { return sb(EC_TORAW) ? spy.base.wickr_crypto_engine_ecdsa_to_raw(i) : nullptr; };
    e.wickr_crypto_engine_ecdsa_from_raw = [](const wickr_ec_curve_t c, const wickr_digest_t d, const wickr_buffer_t *i) -> wickr_ecdsa_result_t * { return sb(EC_FROMRAW) ? spy.base.wickr_crypto_engine_ecdsa_from_raw(c, d, i) : nullptr; };
    e.wickr_crypto_engine_gen_shared_secret = [](const wickr_ec_key_t *l, const wickr_ec_key_t *p) -> wickr_buffer_t * { return sb(EC_DH) ? spy.base.wickr_crypto_engine_gen_shared_secret(l, p) : nullptr; };
    e.wickr_crypto_engine_hmac_create = [](const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t m) -> wickr_buffer_t * { return sb(EC_HMAC) ? spy.base.wickr_crypto_engine_hmac_create(d, k, m) : nullptr; };
    e.wickr_crypto_engine_hmac_verify = [](const wickr_buffer_t *d, const wickr_buffer_t *k, const wickr_digest_t m, const wickr_buffer_t *x) -> bool { return sb(EC_HMACV) ? spy.base.wickr_crypto_engine_hmac_verify(d, k, m, x) : false; };
    e.wickr_crypto_kdf_gen = [](wickr_kdf_algo_t a, const wickr_buffer_t *p) -> wickr_kdf_result_t * { return sb(EC_KDF) ? spy.base.wickr_crypto_kdf_gen(a, p) : nullptr; };
    e.wickr_crypto_kdf_meta = [](const wickr_kdf_meta_t *m, const wickr_buffer_t *p) -> wickr_kdf_result_t * { return sb(EC_KDFM) ? spy.base.wickr_crypto_kdf_meta(m, p) : nullptr; };
    return e;
}

// ---- toy engine: ideal primitives over 64 bit hashes ---------------------------------------------
// private key: 16 bytes 'P' + 8 byte scalar + filler; public key: 'Q' + the scalar masked (the mask is unknown to the
// library, the adversary in the checks is only given the operations an attacker has).
namespace toy {
static const uint64_t MASK = 0xa5c3f00d5eed1234ull;
static uint64_t H(std::initializer_list<std::pair<const void *, size_t>> l, uint64_t s) { uint64_t h = s; for (auto &x : l) h = mc::Hash{h}.b(x.first, x.second).h; return h; }
static uint64_t rd(const uint8_t *p) { uint64_t v; memcpy(&v, p, 8); return v; }
static MB expand(uint64_t h, size_t n) { MB b = wickr_buffer_create_empty(n); if (!b) return nullptr; for (size_t i = 0; i < n; i += 8) { uint64_t v = mc::mix(h + i * 0x1357); for (size_t j = 0; j < 8 && i + j < n; j++) b->bytes[i + j] = (uint8_t)(v >> (8 * j)); } return b; }
static MB rnd(size_t n) { if (!n) return nullptr; MB b = wickr_buffer_create_empty(n); if (b && !rng_bytes(b->bytes, (int)n)) wickr_buffer_destroy_zero(&b); return b; }
static bool scalar(const wickr_ec_key_t *k, bool pri, uint64_t *s) { const wickr_buffer_t *b = !k ? nullptr : pri ? k->pri_data : k->pub_data; if (!b || b->length != 18 || b->bytes[0] != (pri ? 'P' : 'Q')) return false; *s = rd(b->bytes + 2); if (!pri) *s ^= MASK; return true; }
static wickr_ec_key_t *key(uint64_t s, bool pri) {
    uint8_t q[18], p[18]; memset(q, 0x51, 18); memset(p, 0x50, 18); uint64_t m = s ^ MASK; memcpy(p + 2, &s, 8); memcpy(q + 2, &m, 8); q[1] = p[1] = EC_CURVE_ID_NIST_P521;
    uint64_t c = mc::mix(s); memcpy(p + 10, &c, 8); c = mc::mix(m ^ 77); memcpy(q + 10, &c, 8);
    MB qb = wickr_buffer_create(q, 18); MB pb = pri ? wickr_buffer_create(p, 18) : nullptr; wickr_ec_key_t *k = (qb && (pb || !pri)) ? wickr_ec_key_create(EC_CURVE_NIST_P521, qb, pb) : nullptr; if (!k) { wickr_buffer_destroy_zero(&qb); wickr_buffer_destroy_zero(&pb); } return k;
}
static wickr_ec_key_t *ec_rand(wickr_ec_curve_t) { uint64_t s; if (!rng_bytes((unsigned char *)&s, 8)) return nullptr; return key(s, true); }
static wickr_ec_key_t *ec_import(const wickr_buffer_t *b, bool pri) {
    if (!b || b->length != 18 || b->bytes[0] != (pri ? 'P' : 'Q') || b->bytes[1] != EC_CURVE_ID_NIST_P521) return nullptr; uint64_t v = rd(b->bytes + 2), c = rd(b->bytes + 10);
    if (pri) { if (c != mc::mix(v)) return nullptr; return key(v, true); } if (c != mc::mix(v ^ 77)) return nullptr; return key(v ^ MASK, false);
}
static uint64_t sigval(uint64_t s, CB d, int dig) { return H({{&s, 8}, {d->bytes, d->length}, {&dig, 4}}, 0x516); }
static wickr_ecdsa_result_t *sign(const wickr_ec_key_t *k, const wickr_buffer_t *d, const wickr_digest_t m) {
    uint64_t s; if (!d || !scalar(k, true, &s)) return nullptr; uint64_t v[3]; v[0] = sigval(s, d, m.digest_id); if (!rng_bytes((unsigned char *)&v[1], 8)) return nullptr; v[2] = mc::mix(v[0] ^ v[1]);
    MB b = wickr_buffer_create((uint8_t *)v, 24); if (!b) return nullptr; wickr_ecdsa_result_t *r = wickr_ecdsa_result_create(k->curve, m, b); if (!r) wickr_buffer_destroy_zero(&b); return r;
}
static bool verify(const wickr_ecdsa_result_t *g, const wickr_ec_key_t *k, const wickr_buffer_t *d) {
    uint64_t s; if (!g || !d || !scalar(k, false, &s) || !g->sig_data || g->sig_data->length < 24) return false; uint64_t a = rd(g->sig_data->bytes), b = rd(g->sig_data->bytes + 8), c = rd(g->sig_data->bytes + 16);
    return a == sigval(s, d, g->digest_mode.digest_id) && c == mc::mix(a ^ b);
}
static MB dh(const wickr_ec_key_t *l, const wickr_ec_key_t *p) { uint64_t a, b; if (!scalar(l, true, &a) || !scalar(p, false, &b)) return nullptr; return expand(mc::mix(mc::mix(a) + mc::mix(b)), 66); }
static uint64_t tagval(CB key, CB iv, CB aad, CB pt) { static const uint8_t z = 0; return H({{key->bytes, key->length}, {iv->bytes, iv->length}, {aad ? aad->bytes : &z, aad ? aad->length : 0}, {pt->bytes, pt->length}}, 0x7a6); }
static MB crypt(CB in, CB key, CB iv) { uint64_t h = H({{key->bytes, key->length}, {iv->bytes, iv->length}}, 0xc17); MB ks = expand(h, in->length); if (!ks) return nullptr; for (size_t i = 0; i < in->length; i++) ks->bytes[i] ^= in->bytes[i]; return ks; }
static wickr_cipher_result_t *enc(const wickr_buffer_t *pt, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, const wickr_buffer_t *iv) {
    if (!pt || !k || k->key_data->length != k->cipher.key_len) return nullptr; if (aad && !k->cipher.is_authenticated) return nullptr;
    MB ivb = iv ? wickr_buffer_copy(iv) : rnd(k->cipher.iv_len); if (!ivb) return nullptr; MB ct = crypt(pt, k->key_data, ivb); MB tag = nullptr; if (ct && k->cipher.is_authenticated) tag = expand(tagval(k->key_data, ivb, aad, pt), k->cipher.auth_tag_len);
    wickr_cipher_result_t *r = (ct && (tag || !k->cipher.is_authenticated)) ? wickr_cipher_result_create(k->cipher, ivb, ct, tag) : nullptr; if (!r) { wickr_buffer_destroy_zero(&ivb); wickr_buffer_destroy_zero(&ct); wickr_buffer_destroy_zero(&tag); } return r;
}
static MB dec(const wickr_cipher_result_t *c, const wickr_buffer_t *aad, const wickr_cipher_key_t *k, bool only) {
    if (!c || !k || !c->cipher_text || !wickr_cipher_result_is_valid(c) || c->cipher.cipher_id != k->cipher.cipher_id || (only && !c->cipher.is_authenticated) || k->key_data->length != k->cipher.key_len) return nullptr;
    MB pt = crypt(c->cipher_text, k->key_data, c->iv); if (pt && c->cipher.is_authenticated) { MB t = expand(tagval(k->key_data, c->iv, aad, pt), c->cipher.auth_tag_len); if (!t || !same(t, c->auth_tag)) wickr_buffer_destroy_zero(&pt); wickr_buffer_destroy_zero(&t); } return pt;
}
static wickr_cipher_key_t *krand(wickr_cipher_t c) { MB b = rnd(c.key_len); if (!b) return nullptr; wickr_cipher_key_t *k = wickr_cipher_key_create(c, b); if (!k) wickr_buffer_destroy_zero(&b); return k; }
static MB digest(const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t m) { if (!b) return nullptr; static const uint8_t z = 0; int id = m.digest_id; return expand(H({{b->bytes, b->length}, {s ? s->bytes : &z, s ? s->length : 0}, {&id, 4}}, 0xd16), m.size); }
static MB hmac(const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t m) { if (!d || !k) return nullptr; int id = m.digest_id; return expand(H({{d->bytes, d->length}, {k->bytes, k->length}, {&id, 4}}, 0x4ac), m.size); }
static bool hmacv(const wickr_buffer_t *d, const wickr_buffer_t *k, const wickr_digest_t m, const wickr_buffer_t *x) { MB h = hmac(d, k, m); bool r = h && x && same(h, x); wickr_buffer_destroy_zero(&h); return r; }
static wickr_kdf_result_t *kdfm(const wickr_kdf_meta_t *m, const wickr_buffer_t *p) {
    if (!m || !p) return nullptr; static const uint8_t z = 0; int id = m->algo.kdf_id, os = m->algo.output_size;
    MB h = expand(H({{p->bytes, p->length}, {m->salt ? m->salt->bytes : &z, m->salt ? m->salt->length : 0}, {m->info ? m->info->bytes : &z, m->info ? m->info->length : 0}, {&id, 4}, {&os, 4}}, 0xdf), m->algo.output_size ? m->algo.output_size : 64);
    wickr_kdf_meta_t *mc_ = wickr_kdf_meta_copy(m); wickr_kdf_result_t *r = (h && mc_) ? wickr_kdf_result_create(mc_, h) : nullptr; if (!r) { wickr_buffer_destroy_zero(&h); wickr_kdf_meta_destroy(&mc_); } return r;
}
}
namespace toy {
static wickr_kdf_result_t *kdfg(wickr_kdf_algo_t a, const wickr_buffer_t *p) { MB salt = rnd(a.salt_size ? a.salt_size : 16); if (!salt) return nullptr; wickr_kdf_meta_t *m = wickr_kdf_meta_create(a, salt, nullptr); if (!m) { wickr_buffer_destroy_zero(&salt); return nullptr; } wickr_kdf_result_t *r = kdfm(m, p); wickr_kdf_meta_destroy(&m); return r; }
}
wickr_crypto_engine_t toy_engine()
{
    wickr_crypto_engine_t e = wickr_crypto_engine_get_default();
    e.wickr_crypto_engine_crypto_random = toy::rnd; e.wickr_crypto_engine_cipher_key_random = toy::krand;
    e.wickr_crypto_engine_cipher_encrypt = toy::enc; e.wickr_crypto_engine_cipher_decrypt = toy::dec;
    e.wickr_crypto_engine_digest = toy::digest; e.wickr_crypto_engine_ec_rand_key = toy::ec_rand; e.wickr_crypto_engine_ec_key_import = toy::ec_import;
    e.wickr_crypto_engine_ec_sign = toy::sign; e.wickr_crypto_engine_ec_verify = toy::verify; e.wickr_crypto_engine_gen_shared_secret = toy::dh;
    e.wickr_crypto_engine_hmac_create = toy::hmac; e.wickr_crypto_engine_hmac_verify = toy::hmacv; e.wickr_crypto_kdf_meta = toy::kdfm; e.wickr_crypto_kdf_gen = toy::kdfg;
    return e;
}

// ---- builders ------------------------------------------------------------------------------------
wickr_identity_chain_t *mk_chain(const wickr_crypto_engine_t &e, const Bytes &user, const Bytes &dev)
{
    wickr_ec_key_t *rk = e.wickr_crypto_engine_ec_rand_key(e.default_curve);
    wickr_identity_t *root = wickr_identity_create(IDENTITY_TYPE_ROOT, mk(user), rk, nullptr);
    MB d = mk(dev); wickr_identity_t *node = wickr_node_identity_gen(&e, root, d); wickr_buffer_destroy(&d);
    wickr_identity_chain_t *c = wickr_identity_chain_create(root, node);
    if (!c) { fprintf(stderr, "mk_chain failed\n"); abort(); }
    return c;
}
wickr_node_t *mk_node(const wickr_crypto_engine_t &e, const wickr_identity_chain_t *chain, const Bytes &dev_id, uint64_t key_id)
{
    wickr_ephemeral_keypair_t *k = wickr_ephemeral_keypair_generate_identity(&e, key_id, chain->node);
    wickr_node_t *n = wickr_node_create(mk(dev_id), wickr_identity_chain_copy(chain), k);
    if (!n) { fprintf(stderr, "mk_node failed\n"); abort(); }
    return n;
}
wickr_identity_chain_t *pub_chain(const wickr_crypto_engine_t &e, const wickr_identity_chain_t *c)
{
    OBuf b(wickr_identity_chain_serialize(c)); return b ? wickr_identity_chain_create_from_buffer(b.get(), &e) : nullptr;
}
Bytes read_file(const std::string &p, bool *ex) { FILE *f = fopen(p.c_str(), "rb"); if (ex) *ex = f != nullptr; Bytes s; if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void write_file(const std::string &p, const Bytes &s) { FILE *f = fopen(p.c_str(), "wb"); if (!f) { perror(p.c_str()); abort(); } fwrite(s.data(), 1, s.size(), f); fclose(f); }
