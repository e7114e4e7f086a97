// E01: symmetric encryption opens only what was sealed, with the same key and context
#include "w.hpp"
#include <openssl/aes.h>
#include <sys/mman.h>

// ---- reference AES-CTR and AES-GCM built from the single-block cipher only -----------------------
static void block(const Bytes &key, const uint8_t in[16], uint8_t out[16]) { AES_KEY k; AES_set_encrypt_key((const uint8_t *)key.data(), 256, &k); AES_encrypt(in, out, &k); }
static Bytes ctr(const Bytes &key, Bytes c, const Bytes &in, int counter_bytes)
{
    Bytes o = in; for (size_t i = 0; i < in.size(); i += 16) { uint8_t ks[16]; block(key, (const uint8_t *)c.data(), ks); for (size_t j = i; j < i + 16 && j < in.size(); j++) o[j] ^= ks[j - i];
        for (int b = 15; b >= 16 - counter_bytes; b--) if (++c[b]) break; }
    return o;
}
static void gmul(uint8_t x[16], const uint8_t h[16])
{
    uint8_t z[16] = { 0 }, v[16]; memcpy(v, h, 16);
    for (int i = 0; i < 128; i++) { if (x[i / 8] >> (7 - i % 8) & 1) for (int j = 0; j < 16; j++) z[j] ^= v[j]; int lsb = v[15] & 1; for (int j = 15; j > 0; j--) v[j] = v[j] >> 1 | v[j - 1] << 7; v[0] >>= 1; if (lsb) v[0] ^= 0xe1; }
    memcpy(x, z, 16);
}
static std::pair<Bytes, Bytes> gcm(const Bytes &key, const Bytes &iv, const Bytes &pt, const Bytes &aad)
{
    uint8_t h[16], zero[16] = { 0 }, y[16] = { 0 }; block(key, zero, h); Bytes j0 = iv + Bytes(3, 0) + Bytes(1, 1), c1 = j0; c1[15] = 2;
    Bytes ct = ctr(key, c1, pt, 4), len(16, 0); for (int i = 0; i < 8; i++) { len[7 - i] = (char)((uint64_t)aad.size() * 8 >> 8 * i); len[15 - i] = (char)((uint64_t)ct.size() * 8 >> 8 * i); }
    for (const Bytes *s : { &aad, (const Bytes *)&ct, (const Bytes *)&len }) for (size_t i = 0; i < s->size(); i += 16) { for (size_t j = i; j < i + 16 && j < s->size(); j++) y[j - i] ^= (uint8_t)(*s)[j]; gmul(y, h); }
    return { ct, ctr(key, j0, Bytes((char *)y, 16), 4) };
}
struct View { wickr_buffer_t b; CB p; std::unique_ptr<Exact> e; View(const Bytes &s, bool present) : p(nullptr) { if (present) { e.reset(new Exact(s)); p = *e; } } };
static OKey mkkey(wickr_cipher_t c, int salt) { return OKey(wickr_cipher_key_create(c, mk(pat(c.key_len, salt)))); }

int main(int argc, char **argv)
{
    mc::init("E01", "model_checking", "every combination of cipher, plaintext length around block boundaries, associated data, supplied or generated nonce, every single-bit alteration of key, nonce, tag, text and associated data, every mismatch of key, nonce and tag kind or size, and every cipher byte of the serialised form; results compared with AES-CTR and AES-GCM built from the single-block cipher", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("OpenSSL's AES single-block function implements AES; empty plaintexts, which the library's buffers cannot represent, are only required not to open to anything else");
    std::vector<size_t> lens; for (size_t i = 1; i <= 34; i++) lens.push_back(i); for (size_t c : { 48, 64, 128, 256, 1024, 4096 }) for (size_t d : { c - 1, c, c + 1 }) lens.push_back(d);
    if (mc::thorough()) { for (size_t i = 35; i < 300; i++) lens.push_back(i); for (size_t i = 8190; i < 8196; i++) lens.push_back(i); lens.push_back(65537); }
    const std::vector<int> aads = { -1, 1, 11, 12, 13, 15, 16, 17, 32, 40, 100, 255, 256, 257 };
    const wickr_cipher_t CI[2] = { CIPHER_AES256_GCM, CIPHER_AES256_CTR };

    mc::part("seal-open", [&] {
        wickr_cipher_t c = CI[mc::choose(2, "cipher")]; size_t n = mc::pick(lens, "length"); int al = mc::pick(aads, "aad"); int ivk = mc::choose(3, "iv");   // 0 generated 1 pattern 2 all ones (counter carries)
        Bytes pt = pat(n, 1), aad = al < 0 ? Bytes() : pat(al, 2), iv = ivk == 1 ? pat(c.iv_len, 3) : Bytes(c.iv_len, (char)0xff); OKey k = mkkey(c, 4);
        View vp(pt, true), va(aad, al >= 0), vi(iv, ivk != 0);
        OCipher r(openssl_aes256_encrypt(vp.p, va.p, k.get(), vi.p)); mc::step();
        if (al >= 0 && !c.is_authenticated) { MC_CHECK(!r, "aad-ignored", "encryption with associated data and an unauthenticated cipher succeeded"); mc::outcome("aad-refused"); return; }
        MC_CHECK(r, "encrypt-failed", "cipher %d length %zu aad %d iv %d: encryption failed", c.cipher_id, n, al, ivk);
        MC_CHECK(r->cipher.cipher_id == c.cipher_id && r->iv && r->iv->length == c.iv_len && r->cipher_text && (c.is_authenticated == (r->auth_tag != nullptr)), "shape", "malformed result");
        if (ivk) MC_CHECK(is(r->iv, iv), "iv-not-used", "result reports another nonce than the one supplied");
        else { OCipher r2(openssl_aes256_encrypt(vp.p, va.p, k.get(), nullptr)); MC_CHECK(r2 && !same(r2->iv, r->iv), "iv-repeated", "two encryptions generated the same nonce"); }
        auto ref = c.is_authenticated ? gcm(str(k->key_data), str(r->iv), pt, aad) : std::make_pair(ctr(str(k->key_data), str(r->iv), pt, 16), Bytes());
        MC_CHECK(is(r->cipher_text, ref.first), "cipher-text", "cipher %d length %zu aad %d iv %d: text differs from the definition", c.cipher_id, n, al, ivk);
        if (c.is_authenticated) MC_CHECK(is(r->auth_tag, ref.second), "tag", "length %zu aad %d: tag differs from the definition", n, al);
        // through the serialised form and a copy
        OBuf ser(wickr_cipher_result_serialize(r.get())); MC_CHECK(ser && is(ser.get(), Bytes(1, (char)c.cipher_id) + str(r->iv) + ref.second + ref.first), "serialise", "serialised form is not id, nonce, tag, text");
        OCipher back(wickr_cipher_result_from_buffer(ser.get())), cp(wickr_cipher_result_copy(r.get()));
        for (wickr_cipher_result_t *x : { r.get(), back.get(), cp.get() }) for (int only = 0; only < 2; only++) {
            OBuf d(openssl_aes256_decrypt(x, va.p, k.get(), only)); mc::step();
            if (only && !c.is_authenticated) { MC_CHECK(!d, "unauthenticated-accepted", "unauthenticated text opened although only authenticated ciphers are allowed"); continue; }
            MC_CHECK(d && is(d.get(), pt), "open", "cipher %d length %zu aad %d: did not open to the plaintext", c.cipher_id, n, al);
        }
        // other contexts
        OKey ks[] = { mkkey(c, 5), mkkey(CI[!c.cipher_id], 4) };
        for (auto &o : ks) { OBuf d(openssl_aes256_decrypt(r.get(), va.p, o.get(), false)); if (c.is_authenticated || o->cipher.cipher_id != c.cipher_id) MC_CHECK(!d, "other-key", "opened with another key"); else MC_CHECK(!d || !is(d.get(), pt) || n < 4, "other-key", "another key gives the plaintext"); }
        for (int al2 : aads) { if (al2 == al) continue; View v2(al2 < 0 ? Bytes() : pat(al2, 2), al2 >= 0); OBuf d(openssl_aes256_decrypt(r.get(), v2.p, k.get(), false)); MC_CHECK(!d, "other-aad", "opened with associated data of length %d instead of %d", al2, al); }
        mc::outcome(c.is_authenticated ? "sealed" : "enciphered"); mc::state(mc::Hash().u(c.cipher_id).u(n).u(al + 1).u(ivk).h);
    });
    mc::part("alterations", [&] {
        wickr_cipher_t c = CI[mc::choose(2, "cipher")]; size_t n = mc::pick(std::vector<size_t>{ 1, 15, 16, 17, 33, 64 }, "length"); int al = c.is_authenticated ? mc::pick(std::vector<int>{ -1, 1, 16, 33 }, "aad") : -1; int part = mc::choose(7, "altered");
        Bytes pt = pat(n, 1), aad = al < 0 ? Bytes() : pat(al, 2); OKey k = mkkey(c, 4); View vp(pt, true), va(aad, al >= 0);
        OCipher r(openssl_aes256_encrypt(vp.p, va.p, k.get(), nullptr)); MC_CHECK(r, "encrypt-failed", "encryption failed");
        auto verdict = [&](const wickr_cipher_result_t *x, CB a, const wickr_cipher_key_t *key, const char *what, int pos) {
            for (int only = 0; only < 2; only++) { OBuf d(openssl_aes256_decrypt(x, a, key, only)); mc::step(); if (c.is_authenticated || only) MC_CHECK(!d, "alteration-accepted", "length %zu aad %d: opened with %s altered at bit %d", n, al, what, pos); else if (d) MC_CHECK(!is(d.get(), pt) || n < 4, "alteration-unseen", "%s altered at bit %d makes no difference", what, pos); } };
        auto bits = [&](MB b, const char *what) { if (!b) return; for (size_t i = 0; i < b->length * 8; i++) { b->bytes[i / 8] ^= 1 << i % 8; verdict(r.get(), va.p, k.get(), what, (int)i); b->bytes[i / 8] ^= 1 << i % 8; } };
        switch (part) {
        case 0: bits(r->cipher_text, "the text"); break; case 1: bits(r->iv, "the nonce"); break; case 2: bits(r->auth_tag, "the tag"); break; case 3: bits(k->key_data, "the key"); break;
        case 4: for (size_t i = 0; i < aad.size() * 8; i++) { Bytes a = aad; a[i / 8] ^= 1 << i % 8; View v(a, true); verdict(r.get(), v.p, k.get(), "associated data", (int)i); } break;
        case 5: if (c.is_authenticated) { Bytes ct = str(r->cipher_text); for (size_t m = 1; m <= n + 3; m++) { if (m == n) continue; OCipher x(wickr_cipher_result_copy(r.get())); wickr_buffer_destroy(&x->cipher_text); x->cipher_text = mk((ct + pat(3)).substr(0, m)); verdict(x.get(), va.p, k.get(), "the length", (int)m); } } break;
        case 6: { Bytes s = take(wickr_cipher_result_serialize(r.get())); // the serialised form: every bit, every cut
            for (size_t i = 0; i < s.size() * 8 + s.size(); i++) { Bytes x = s; if (i < s.size() * 8) x[i / 8] ^= 1 << i % 8; else x.resize(i - s.size() * 8); Exact b(x); OCipher q(wickr_cipher_result_from_buffer(b)); if (!q) continue; 
                for (int only = 0; only < 2; only++) { OBuf d(openssl_aes256_decrypt(q.get(), va.p, k.get(), only)); mc::step(); if (c.is_authenticated || only) MC_CHECK(!d, "serialised-alteration-accepted", "length %zu aad %d: serialised form altered at %zu opens", n, al, i); } } } break;
        }
        mc::outcome("altered"); mc::state(mc::Hash().u(c.cipher_id).u(n).u(al + 1).u(part).h);
    });
    // long associated data: nothing of it is left out
    mc::part("long-aad", [&] {
        size_t n = mc::pick(std::vector<size_t>{ 1, 16, 100 }, "length"), al = mc::pick(std::vector<size_t>{ 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 100000 }, "aad"); Bytes pt = pat(n, 1), aad = pat(al, 2); OKey k = mkkey(CIPHER_AES256_GCM, 4); View vp(pt, true), va(aad, true);
        OCipher r(openssl_aes256_encrypt(vp.p, va.p, k.get(), nullptr)); MC_CHECK(r, "encrypt-failed", "aad %zu: encryption failed", al); auto ref = gcm(str(k->key_data), str(r->iv), pt, aad); MC_CHECK(is(r->cipher_text, ref.first) && is(r->auth_tag, ref.second), "tag", "length %zu aad %zu: differs from the definition", n, al);
        { OBuf d(openssl_aes256_decrypt(r.get(), va.p, k.get(), true)); MC_CHECK(is(d.get(), pt), "open", "aad %zu: did not open", al); }
        for (size_t cut : { al - 1, al / 2, al - 16, al - 256 < al ? al - 256 : 0, (size_t)255, (size_t)256, (size_t)4096, (size_t)65535 }) if (cut < al) { View v(aad.substr(0, cut), cut > 0); OBuf d(openssl_aes256_decrypt(r.get(), v.p, k.get(), false)); MC_CHECK(!d, "other-aad", "opened with %zu of %zu bytes of associated data", cut, al); mc::step(); }
        for (size_t at : { (size_t)0, al / 2, (size_t)253, (size_t)255, (size_t)256, (size_t)4095, (size_t)4096, (size_t)65535, (size_t)65536, al - 2, al - 1 }) if (at < al) { Bytes x = aad; x[at] ^= 1; View v(x, true); OBuf d(openssl_aes256_decrypt(r.get(), v.p, k.get(), false)); MC_CHECK(!d, "other-aad", "opened with byte %zu of %zu of the associated data altered", at, al); mc::step(); }
        { View v(aad + Bytes(1, 0), true); OBuf d(openssl_aes256_decrypt(r.get(), v.p, k.get(), false)); MC_CHECK(!d, "other-aad", "opened with longer associated data"); } mc::outcome("sealed"); mc::state(mc::Hash().u(n).u(al).h);
    });
    // long texts: every part of them is protected, and nothing depends on their size
    mc::part("long-text", [&] {
        static const std::vector<size_t> ns = mc::thorough() ? std::vector<size_t>{ 65535, 65536, 65537, 100000, 131072, 262144, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 22, (1 << 24) + 1 } : std::vector<size_t>{ 32768, 65535, 65536, 65537, 100000, 1 << 18, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 22) + 1, (1 << 23) + 5 };
        wickr_cipher_t c = CI[mc::choose(2, "cipher")]; size_t n = mc::pick(ns, "length"); int al = c.is_authenticated ? mc::choose(3, "aad") : 0; Bytes pt = pat(n, 1), aad = al ? pat(al == 1 ? 20 : 70000, 2) : Bytes(); OKey k = mkkey(c, 4); View vp(pt, true), va(aad, al > 0);
        OCipher r(openssl_aes256_encrypt(vp.p, va.p, k.get(), nullptr)); mc::step(); MC_CHECK(r, "encrypt-failed", "cipher %d length %zu", c.cipher_id, n); auto ref = c.is_authenticated ? gcm(str(k->key_data), str(r->iv), pt, aad) : std::make_pair(ctr(str(k->key_data), str(r->iv), pt, 16), Bytes()); MC_CHECK(is(r->cipher_text, ref.first), "cipher-text", "cipher %d length %zu: text differs from the definition", c.cipher_id, n); if (c.is_authenticated) MC_CHECK(is(r->auth_tag, ref.second), "tag", "length %zu: tag differs from the definition", n);
        { OBuf d(openssl_aes256_decrypt(r.get(), va.p, k.get(), c.is_authenticated)); MC_CHECK(is(d.get(), pt), "open", "cipher %d length %zu: did not open to the plaintext", c.cipher_id, n); }
        if (c.is_authenticated) for (size_t at : { (size_t)0, (size_t)4095, (size_t)4096, (size_t)32767, (size_t)65535, (size_t)65536, n / 2, n - 17, n - 1 }) if (at < n) { r->cipher_text->bytes[at] ^= 4; OBuf d(openssl_aes256_decrypt(r.get(), va.p, k.get(), true)); r->cipher_text->bytes[at] ^= 4; MC_CHECK(!d, "altered", "length %zu: opened with byte %zu altered", n, at); }
        mc::outcome(c.is_authenticated ? "sealed" : "enciphered"); mc::state(mc::Hash().u(c.cipher_id).u(n).u(al).h);
    });
    // sealing under a passphrase: which functions and ciphers, what the result is, what it opens with
    mc::part("passphrase", [&] {
        bool real = mc::flip("engine"); static wickr_crypto_engine_t te = toy_engine(), re = real_engine(); const wickr_crypto_engine_t &e = real ? re : te; static const wickr_kdf_algo_t *AL[] = { &KDF_SCRYPT_2_17, &KDF_SCRYPT_2_18, &KDF_SCRYPT_2_19, &KDF_SCRYPT_2_20, &KDF_BCRYPT_15, &KDF_HKDF_SHA256, &KDF_HKDF_SHA384, &KDF_HKDF_SHA512 };
        int a = mc::choose(8, "function"), c = mc::choose(2, "cipher"), os = mc::choose(5, "output-size"), n = mc::pick(std::vector<int>{ 1, 16, 33, 300 }, "length"); wickr_kdf_algo_t al = *AL[a]; if (os) al.output_size = os == 1 ? 16 : os == 2 ? 31 : os == 3 ? 33 : 64; if (os && al.output_size == AL[a]->output_size) mc::prune(); Bytes pt = pat(n, 1), P = "pass phrase"; Exact vp(pt), pp(P);
        trk::reset(); trk::on = true; wickr_buffer_t *b = wickr_crypto_engine_kdf_cipher(&e, al, CI[c], vp, pp); mc::step(); bool good = a < 4 && c == 0 && os == 0; MC_CHECK(good == (b != nullptr), "passphrase-gate", "function %d, cipher %d, output of %d bytes: %s", al.kdf_id, c, al.output_size, b ? "accepted" : "refused");
        wickr_buffer_t *d = wickr_crypto_engine_kdf_decipher(&e, b, pp); if (b) MC_CHECK(is(d, pt), "open", "does not open"); else MC_CHECK(!d, "open", "nothing opens"); Bytes s = b ? str(b) : Bytes(); wickr_buffer_destroy(&b); wickr_buffer_destroy(&d);
        for (int m = 0; m < 3; m++) { wickr_buffer_t *x = m == 0 ? wickr_crypto_engine_kdf_cipher(nullptr, al, CI[c], vp, pp) : m == 1 ? wickr_crypto_engine_kdf_cipher(&e, al, CI[c], nullptr, pp) : wickr_crypto_engine_kdf_cipher(&e, al, CI[c], vp, nullptr); MC_CHECK(!x, "missing", "sealed without argument %d", m); } trk::on = false; MC_CHECK(trk::live() == 0, "leak", "%s", trk::describe_live().c_str());
        if (good) { // the recorded parameters, then the sealed text under the derived key
            Exact sb(s); OKdfMeta m(wickr_kdf_meta_create_with_buffer(sb)); size_t h = 1 + al.salt_size; MC_CHECK(m && m->algo.kdf_id == al.kdf_id && is(m->salt, s.substr(1, al.salt_size)), "passphrase-form", "the parameters are not recorded"); OKdf q(e.wickr_crypto_kdf_meta(m.get(), pp)); OKey k(wickr_cipher_key_create(CI[0], wickr_buffer_copy(q->hash))); Exact rest(s.substr(h)); OCipher r(wickr_cipher_result_from_buffer(rest)); MC_CHECK(r && r->cipher.cipher_id == CI[0].cipher_id, "passphrase-form", "the text is not a sealed text"); OBuf o(e.wickr_crypto_engine_cipher_decrypt(r.get(), nullptr, k.get(), true)); MC_CHECK(is(o.get(), pt), "passphrase-form", "not sealed under the key derived from the passphrase");
            OBuf again(wickr_crypto_engine_kdf_cipher(&e, al, CI[0], vp, pp)); MC_CHECK(again && again->length == s.size() && str(again.get()).substr(1, al.salt_size) != s.substr(1, al.salt_size), "salt-repeated", "two sealings use one salt");
            for (size_t i = 0; i < s.size() * 9 + 2; i++) { Bytes x = s; if (i < s.size() * 8) x[i / 8] ^= 1 << i % 8; else if (i < s.size() * 9) x.resize(i - s.size() * 8); else x += Bytes(1, (char)(i & 1)); Exact bx(x); OBuf y(wickr_crypto_engine_kdf_decipher(&e, bx, pp)); mc::step(); MC_CHECK(!y, "altered", "sealed text altered at %zu opens", i); }
            for (const Bytes &w : { Bytes("pass phrasf"), Bytes("pass phras"), Bytes("pass phrase "), Bytes("p") }) { Exact pw(w), bx(s); OBuf y(wickr_crypto_engine_kdf_decipher(&e, bx, pw)); MC_CHECK(!y, "other-passphrase", "opens with another passphrase"); }
            Exact bx(s); OBuf n1(wickr_crypto_engine_kdf_decipher(nullptr, bx, pp)), n2(wickr_crypto_engine_kdf_decipher(&e, nullptr, pp)), n3(wickr_crypto_engine_kdf_decipher(&e, bx, nullptr)); MC_CHECK(!n1 && !n2 && !n3, "missing", "opened without an argument"); }
        mc::outcome(good ? "sealed" : "refused"); mc::state(mc::Hash().u(real).u(a).u(c).u(os).u(n).h);
    });
    // text that is genuinely encrypted under a passphrase, but in a way that is not allowed
    mc::part("passphrase-forged", [&] {
        bool real = mc::flip("engine"); static wickr_crypto_engine_t te = toy_engine(), re = real_engine(); const wickr_crypto_engine_t &e = real ? re : te; int a = mc::choose(8, "function"), c = mc::choose(2, "cipher"), n = mc::pick(std::vector<int>{ 1, 16, 33 }, "length"); static const wickr_kdf_algo_t *AL[] = { &KDF_SCRYPT_2_17, &KDF_SCRYPT_2_18, &KDF_SCRYPT_2_19, &KDF_SCRYPT_2_20, &KDF_BCRYPT_15, &KDF_HKDF_SHA256, &KDF_HKDF_SHA384, &KDF_HKDF_SHA512 };
        Bytes pt = pat(n, 1), P = "pass phrase"; Exact vp(pt), pp(P); OKdf q(e.wickr_crypto_kdf_gen(*AL[a], pp)); MC_CHECK(q, "kdf", "derivation"); OBuf h(wickr_kdf_meta_serialize(q->meta)); Bytes key = str(q->hash); key.resize(32, 0); OKey k(wickr_cipher_key_create(CI[c], mk(key))); OCipher r(e.wickr_crypto_engine_cipher_encrypt(vp, nullptr, k.get(), nullptr)); MC_CHECK(r && h, "encrypt-failed", "setup"); OBuf t(wickr_cipher_result_serialize(r.get())); Bytes s = str(h.get()) + str(t.get());
        Exact b(s); OBuf y(wickr_crypto_engine_kdf_decipher(&e, b, pp)); mc::step(); if (c == 1) MC_CHECK(!y, "unauthenticated-accepted", "text enciphered without authentication under the key of a passphrase (function %d) opens", AL[a]->kdf_id); else if (a < 4) MC_CHECK(is(y.get(), pt), "open", "does not open"); else if (y) MC_CHECK(is(y.get(), pt), "open", "opens as something else"); mc::outcome(y ? "opens" : "refused"); mc::state(mc::Hash().u(real).u(a).u(c).u(n).h);
    });
    // keys, nonces and tags of any kind and size
    const std::vector<int> sizes = { 0, 1, 11, 12, 13, 15, 16, 17, 24, 31, 32, 33, 64 };
    auto cid = [&](int i) { wickr_cipher_t c = CI[i & 1]; if (i == 2) c.cipher_id = (wickr_cipher_id)7; if (i == 2) c.is_authenticated = true; return c; };
    mc::part("encrypt-misuse", [&] {
        wickr_cipher_t c = cid(mc::choose(3, "cipher")); int ks = mc::pick(sizes, "key-size"), is_ = mc::choose((int)sizes.size() + 1, "nonce") - 1; int al = mc::choose(2, "aad") ? 5 : -1; int what = mc::choose(3, "missing");   // 1: no plaintext 2: no key
        Bytes pt = pat(20, 1); View vp(pt, what != 1), va(pat(5), al >= 0), vi(pat(is_ < 0 ? 0 : sizes[is_]), is_ >= 0), kd(pat(ks, 4), true);
        wickr_cipher_key_t k = { c, (MB)kd.p };
        trk::reset(); trk::on = true; wickr_cipher_result_t *r = openssl_aes256_encrypt(vp.p, va.p, what == 2 ? nullptr : &k, vi.p); mc::step();
        bool good = what == 0 && ks == 32 && (is_ < 0 || sizes[is_] == c.iv_len) && c.cipher_id != 7 && (al < 0 || c.is_authenticated);
        MC_CHECK(good == (r != nullptr), "misuse", "cipher %d key size %d nonce size %d aad %d missing %d: %s", c.cipher_id, ks, is_ < 0 ? -1 : sizes[is_], al, what, r ? "accepted" : "refused");
        if (r) { wickr_cipher_key_t g = { c, (MB)kd.p }; wickr_buffer_t *d = openssl_aes256_decrypt(r, va.p, &g, false); MC_CHECK(is(d, pt), "open", "not opened"); wickr_buffer_destroy(&d); wickr_cipher_result_destroy(&r); }
        trk::on = false; MC_CHECK(trk::live() == 0, "leak", "memory left: %s", trk::describe_live().c_str()); mc::outcome(good ? "good" : "refused"); mc::state(mc::Hash().u(c.cipher_id).u(ks).u(is_ + 1).u(al + 1).u(what).h);
    });
    mc::part("decrypt-misuse", [&] {
        int kc = mc::choose(3, "key-cipher"), rc = mc::choose(3, "text-cipher"); wickr_cipher_t c = cid(rc); int ks = mc::pick(sizes, "key-size"), iv = mc::pick(sizes, "nonce-size"), tg = mc::pick(sizes, "tag-size"); bool only = mc::flip("authenticated-only"); int what = mc::choose(3, "missing");
        Bytes pt = pat(20, 1), key = pat(32, 4), niv = pat(c.iv_len, 3); auto ref = c.is_authenticated ? gcm(key, niv, pt, Bytes()) : std::make_pair(ctr(key, niv, pt, 16), Bytes());
        auto fit = [](Bytes b, int n) { b.resize(n, 'z'); return b; }; View kd(fit(key, ks), true), vi(fit(niv, iv), true), vt(fit(ref.second, tg), tg > 0), ct(ref.first, what != 1);
        wickr_cipher_key_t k = { cid(kc), (MB)kd.p }; wickr_cipher_result_t r = { c, (MB)vi.p, (MB)ct.p, (MB)vt.p };
        trk::reset(); trk::on = true; MB d = openssl_aes256_decrypt(&r, nullptr, what == 2 ? nullptr : &k, only); mc::step();
        bool good = !what && kc == rc && c.cipher_id != 7 && ks == 32 && iv == c.iv_len && (!c.is_authenticated || tg == 16) && (!only || c.is_authenticated);
        if (!good) MC_CHECK(!d, "misuse", "key cipher %d size %d, text cipher %d nonce %d tag %d: accepted", kc, ks, rc, iv, tg); else MC_CHECK(is(d, pt), "open", "correct text not opened");
        wickr_buffer_destroy(&d); trk::on = false; MC_CHECK(trk::live() == 0, "leak", "memory left: %s", trk::describe_live().c_str()); mc::outcome(good ? "good" : "refused"); mc::state(mc::Hash().u(kc).u(rc).u(ks).u(iv).u(tg).u(only).u(what).h);
    });
    // lengths OpenSSL cannot take must not be cut short (address space only: the pages are never touched by a correct refusal)
    mc::part("huge", [&] {
        wickr_cipher_t c = CI[mc::choose(2, "cipher")]; size_t n = mc::pick(std::vector<size_t>{ (size_t)INT_MAX + 1, (size_t)UINT32_MAX + 1, (size_t)UINT32_MAX + 6 }, "size"); int op = mc::choose(3, "as");
        void *m = mmap(nullptr, n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { mc::outcome("no-address-space"); return; }
        wickr_buffer_t big = { n, (uint8_t *)m }; Bytes pt = pat(20, 1); View vp(pt, true); OKey k = mkkey(c, 4); mc::step();
        if (op == 0) { OCipher r(openssl_aes256_encrypt(&big, nullptr, k.get(), nullptr)); MC_CHECK(!r, "huge-plaintext", "plaintext of %zu bytes accepted", n); }
        else if (op == 1) { OCipher r(openssl_aes256_encrypt(vp.p, &big, k.get(), nullptr)); MC_CHECK(!r, "huge-aad", "encryption accepts %zu bytes of associated data, which it cannot authenticate", n); }
        else if (c.is_authenticated) { OCipher r(openssl_aes256_encrypt(vp.p, nullptr, k.get(), nullptr)); OBuf d(openssl_aes256_decrypt(r.get(), &big, k.get(), true)); MC_CHECK(!d, "huge-aad", "text sealed without associated data opens with %zu bytes of it", n); }
        munmap(m, n); mc::outcome("refused"); mc::state(mc::Hash().u(c.cipher_id).u(n).u(op).h);
    });
    mc::part("keys", [&] {   // key objects
        int id = mc::choose(256, "id"); size_t n = mc::choose(40, "length"); Bytes s = Bytes(1, (char)id) + pat(n, 4); Exact b(s); OKey k(wickr_cipher_key_from_buffer(b)); mc::step(); const wickr_cipher_t *c = wickr_cipher_find((uint8_t)id);
        MC_CHECK((id < 2) == (c != nullptr), "cipher-find", "cipher %d", id); if (c) MC_CHECK(c->cipher_id == id && c->key_len == 32 && c->iv_len == (id ? 16 : 12) && c->auth_tag_len == (id ? 0 : 16) && c->is_authenticated == !id, "cipher-find", "cipher %d has wrong parameters", id);
        if (!c || n < 32) MC_CHECK(!k, "short-key", "key of id %d length %zu accepted", id, n); else { MC_CHECK(n > 32 || k, "key-refused", "genuine key refused"); if (k) MC_CHECK(k->cipher.cipher_id == id && is(k->key_data, s.substr(1, 32)), "key", "key read back differs"); if (k && n == 32) { OBuf o(wickr_cipher_key_serialize(k.get())); MC_CHECK(is(o.get(), s), "key", "key does not serialise back"); } }
        MB kd = mk(pat(n)); wickr_cipher_key_t *q = wickr_cipher_key_create(CI[id & 1], kd); MC_CHECK((q != nullptr) == (n == 32), "key-create", "key of %zu bytes %s", n, q ? "created" : "refused"); if (q) wickr_cipher_key_destroy(&q); else wickr_buffer_destroy(&kd); mc::outcome(k ? "key" : "refused"); mc::state(mc::Hash().u(id).u(n).h);
    });
    return mc::finish();
}
