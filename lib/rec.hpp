// rec.hpp - an engine that remembers every secret the library ever handles (private keys, symmetric keys, agreed secrets, derived keys)
#pragma once
#include "w.hpp"
namespace rec {
inline wickr_crypto_engine_t base; inline std::set<Bytes> all; inline bool on = true, random32 = false;      // random32: random blocks of key size are secrets too
inline void add(const Bytes &s) { if (on && s.size() >= 8) all.insert(s); }
// the scalar of a private key, whatever the encoding (the rest of the encoding is public)
inline Bytes scalar(const Bytes &k) { if (k.size() == 18 && k[0] == 'P') return k.substr(2, 8); for (size_t i = 0; i + 5 < k.size() && i < 24; i++) if (k[i] == 2 && k[i + 1] == 1 && k[i + 2] == 1 && k[i + 3] == 4) { size_t n = (uint8_t)k[i + 4]; if (i + 5 + n <= k.size()) return k.substr(i + 5, n); } return k; }
inline void pri(const wickr_ec_key_t *k) { if (k && k->pri_data) add(scalar(str(k->pri_data))); }
// a bcrypt result starts with its public salt
inline void hash(const wickr_kdf_result_t *r) { Bytes h = str(r->hash); if (h.size() == 60 && h[0] == '$') h = h.substr(29); add(h); }
inline wickr_crypto_engine_t engine(const wickr_crypto_engine_t &b)
{
    base = b; wickr_crypto_engine_t e = b;
    e.wickr_crypto_engine_cipher_key_random = [](wickr_cipher_t c) { wickr_cipher_key_t *k = base.wickr_crypto_engine_cipher_key_random(c); if (k) add(str(k->key_data)); return k; };
    e.wickr_crypto_engine_cipher_encrypt = [](const wickr_buffer_t *p, const wickr_buffer_t *a, const wickr_cipher_key_t *k, const wickr_buffer_t *iv) { if (k) add(str(k->key_data)); return base.wickr_crypto_engine_cipher_encrypt(p, a, k, iv); };
    e.wickr_crypto_engine_cipher_decrypt = [](const wickr_cipher_result_t *c, const wickr_buffer_t *a, const wickr_cipher_key_t *k, bool o) { if (k) add(str(k->key_data)); return base.wickr_crypto_engine_cipher_decrypt(c, a, k, o); };
    e.wickr_crypto_engine_ec_rand_key = [](wickr_ec_curve_t c) { wickr_ec_key_t *k = base.wickr_crypto_engine_ec_rand_key(c); pri(k); return k; };
    e.wickr_crypto_engine_ec_key_import = [](const wickr_buffer_t *b, bool p) { wickr_ec_key_t *k = base.wickr_crypto_engine_ec_key_import(b, p); pri(k); return k; };
    e.wickr_crypto_engine_gen_shared_secret = [](const wickr_ec_key_t *l, const wickr_ec_key_t *p) { MB r = base.wickr_crypto_engine_gen_shared_secret(l, p); if (r) add(str(r)); return r; };
    e.wickr_crypto_kdf_gen = [](wickr_kdf_algo_t g, const wickr_buffer_t *p) { wickr_kdf_result_t *r = base.wickr_crypto_kdf_gen(g, p); if (r) hash(r); return r; };
    e.wickr_crypto_kdf_meta = [](const wickr_kdf_meta_t *m, const wickr_buffer_t *p) { wickr_kdf_result_t *r = base.wickr_crypto_kdf_meta(m, p); if (r) hash(r); return r; };
    e.wickr_crypto_engine_crypto_random = [](size_t n) { MB r = base.wickr_crypto_engine_crypto_random(n); if (r && random32 && n == 32) add(str(r)); return r; };
    e.wickr_crypto_engine_digest = [](const wickr_buffer_t *b, const wickr_buffer_t *s, wickr_digest_t d) { MB r = base.wickr_crypto_engine_digest(b, s, d); if (r && b && all.count(str(b))) add(str(r)); return r; };
    // what a stream's next keys are made of (nonces are made from the 8 bytes of a counter)
    e.wickr_crypto_engine_hmac_create = [](const wickr_buffer_t *d, const wickr_buffer_t *k, wickr_digest_t g) { MB r = base.wickr_crypto_engine_hmac_create(d, k, g); if (r && d && d->length >= 16 && r->length == 64) { Bytes s = str(r); add(s); add(s.substr(0, 32)); add(s.substr(32)); } return r; };
    return e;
}
// does s contain 8 consecutive bytes of any secret? (returns which)
inline const Bytes *leaked(const Bytes &s, const std::set<Bytes> &sec = all)
{
    if (s.size() < 8) return nullptr; std::map<uint64_t, const Bytes *> win; uint64_t v;
    for (auto &x : sec) for (size_t i = 0; i + 8 <= x.size(); i++) { memcpy(&v, x.data() + i, 8); if (v != 0 && v != ~0ull) win[v] = &x; }
    for (size_t i = 0; i + 8 <= s.size(); i++) { memcpy(&v, s.data() + i, 8); auto it = win.find(v); if (it != win.end()) return it->second; }
    return nullptr;
}
}
