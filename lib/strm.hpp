// strm.hpp - stream helpers and an independent statement of the key schedule
#pragma once
#include "w.hpp"
struct RefKey { Bytes key, evo; };      // key material of one evolution period
// keys of period n are HMAC-SHA512(data = key of period n-1, key = evolution key of period n-1), first and second half
struct RefSchedule {
    wickr_crypto_engine_t e; wickr_cipher_t cipher; uint32_t ppe; std::vector<RefKey> k;
    RefSchedule(const wickr_crypto_engine_t &eng, const wickr_stream_key_t *s) : e(eng), cipher(s->cipher_key->cipher), ppe(s->packets_per_evolution) { k.push_back({ str(s->cipher_key->key_data), str(s->evolution_key) }); }
    const RefKey &period(uint64_t n) { while (k.size() <= n) { wickr_buffer_t d = view(k.back().key), h = view(k.back().evo); Bytes r = take(e.wickr_crypto_engine_hmac_create(&d, &h, DIGEST_SHA_512)); k.push_back({ r.substr(0, 32), r.substr(32, 32) }); } return k[n]; }
    const RefKey &of(uint64_t seq) { return period(seq / ppe); }
    bool opens(uint64_t n, const wickr_cipher_result_t *c, const Bytes &aad, const Bytes &want) { OKey key(wickr_cipher_key_create(cipher, mk(period(n).key))); wickr_buffer_t a = view(aad); OBuf p(e.wickr_crypto_engine_cipher_decrypt(c, aad.empty() ? nullptr : &a, key.get(), true)); return p && is(p.get(), want); }
};
// the same ciphertext without its authentication: AES-GCM with a 12 byte nonce is AES-CTR starting at counter 2 (real engine)
inline OCipher downgraded(const wickr_cipher_result_t *g) { OBuf iv(mk(str(g->iv) + Bytes("\0\0\0\2", 4))); OBuf ct(wickr_buffer_copy(g->cipher_text)); OCipher c(wickr_cipher_result_create(CIPHER_AES256_CTR, iv.get(), ct.get(), nullptr)); if (!c) { fprintf(stderr, "downgrade\n"); abort(); } iv.release(); ct.release(); return c; }
inline OKey downgraded(const wickr_cipher_key_t *k) { return OKey(wickr_cipher_key_create(CIPHER_AES256_CTR, wickr_buffer_copy(k->key_data))); }
struct Pair { OStream enc, dec; std::unique_ptr<RefSchedule> ref; };
inline Pair mk_pair(const wickr_crypto_engine_t &e, uint32_t ppe, wickr_cipher_t c = CIPHER_AES256_GCM)
{
    Pair p; wickr_stream_key_t *k = wickr_stream_key_create_rand(e, c, ppe); if (!k) { fprintf(stderr, "stream key\n"); abort(); }
    p.ref.reset(new RefSchedule(e, k)); p.enc.reset(wickr_stream_ctx_create(e, wickr_stream_key_copy(k), STREAM_DIRECTION_ENCODE)); p.dec.reset(wickr_stream_ctx_create(e, k, STREAM_DIRECTION_DECODE));
    if (!p.enc || !p.dec) { fprintf(stderr, "stream\n"); abort(); } return p;
}
inline OCipher enc(const OStream &s, const Bytes &d, const Bytes &aad, uint64_t seq) { Exact x(d), a(aad); return OCipher(wickr_stream_ctx_encode(s.get(), x, aad.empty() ? nullptr : (CB)a, seq)); }
inline OBuf dec(const OStream &s, const wickr_cipher_result_t *c, const Bytes &aad, uint64_t seq) { Exact a(aad); return OBuf(wickr_stream_ctx_decode(s.get(), c, aad.empty() ? nullptr : (CB)a, seq)); }
