// E05: key agreement is symmetric and exact, and keys survive export and import
#include "w.hpp"
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/obj_mac.h>
static EC_GROUP *G; static BN_CTX *C; static BIGNUM *N, *P, *A, *Bc;
static Bytes bnb(const BIGNUM *b, size_t n = 66) { Bytes o(n, 0); BN_bn2binpad(b, (uint8_t *)o.data(), (int)n); return o; }
static std::string bhex(const BIGNUM *b) { char *h = BN_bn2hex(b); std::string s(h); OPENSSL_free(h); return s; }
static Bytes oct(const EC_POINT *p, bool compressed) { uint8_t b[200]; size_t n = EC_POINT_point2oct(G, p, compressed ? POINT_CONVERSION_COMPRESSED : POINT_CONVERSION_UNCOMPRESSED, b, sizeof b, C); return Bytes(1, (char)EC_CURVE_ID_NIST_P521) + Bytes((char *)b, n); }
// scalars: small, large, short, around powers of two and the order
static std::vector<BIGNUM *> scalars() {
    std::vector<BIGNUM *> v; auto add = [&](BIGNUM *b) { v.push_back(b); }; for (int i : { 1, 2, 3, 255, 256, 65535 }) { BIGNUM *b = BN_new(); BN_set_word(b, i); add(b); } for (int s : { 8, 16, 64, 255, 256, 504, 511, 512, 519, 520 }) for (int d = -1; d <= 1; d++) { BIGNUM *b = BN_new(); BN_one(b); BN_lshift(b, b, s); if (d < 0) BN_sub_word(b, 1); else if (d) BN_add_word(b, 1); add(b); }
    for (int d : { 1, 2, 3, 256 }) { BIGNUM *b = BN_dup(N); BN_sub_word(b, d); add(b); } for (int i = 0; i < 4; i++) { Bytes x = pat(65, i); add(BN_bin2bn((const uint8_t *)x.data(), 65, nullptr)); } return v; }

int main(int argc, char **argv)
{
    mc::init("E05", "model_checking", "every ordered pair of a set of boundary and ordinary private keys; every public key encoding class (uncompressed, compressed, hybrid, infinity, off the curve, coordinates at and beyond the field size, every length, every first byte); every altered bit and length of the exported private key", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("OpenSSL's big numbers and affine point arithmetic are correct; an altered private key encoding that still denotes a usable key is a different key, which is allowed");
    G = EC_GROUP_new_by_curve_name(NID_secp521r1); C = BN_CTX_new(); N = BN_new(); P = BN_new(); A = BN_new(); Bc = BN_new(); EC_GROUP_get_order(G, N, C); EC_GROUP_get_curve(G, P, A, Bc, C);
    std::vector<BIGNUM *> sc = scalars(); std::vector<OEc> key, pub; std::vector<EC_POINT *> pt;
    for (auto *s : sc) { key.emplace_back(openssl_ec_key_import_test_key(EC_CURVE_NIST_P521, bhex(s).c_str())); if (!key.back()) abort(); EC_POINT *q = EC_POINT_new(G); EC_POINT_mul(G, q, s, nullptr, nullptr, C); pt.push_back(q); }
    for (int i = 0; i < 2; i++) { OEc k(openssl_ec_rand_key(EC_CURVE_NIST_P521)); if (!k) abort(); BIGNUM *d = BN_bin2bn(k->pri_data->bytes + 8, 66, nullptr); sc.push_back(d); EC_POINT *q = EC_POINT_new(G); EC_POINT_mul(G, q, d, nullptr, nullptr, C); pt.push_back(q); key.push_back(std::move(k)); }
    for (auto &k : key) pub.emplace_back(openssl_ec_key_import(k->pub_data, false));
    int K = (int)key.size();
    mc::part("keys", [&] { int i = mc::choose(K, "key"); const wickr_ec_key_t *k = key[i].get(); mc::step(); MC_CHECK(is(k->pub_data, oct(pt[i], false)), "public-key", "public key %d is not the private key times the generator", i); MC_CHECK(pub[i] && same(pub[i]->pub_data, k->pub_data) && !pub[i]->pri_data && pub[i]->curve.identifier == k->curve.identifier, "import-public", "public key %d changes or is refused when imported", i);
        OEc r(openssl_ec_key_import(k->pri_data, true)); MC_CHECK(r && same(r->pri_data, k->pri_data) && same(r->pub_data, k->pub_data) && r->curve.identifier == k->curve.identifier, "import-private", "private key %d changes or is refused when imported", i); OEc c(wickr_ec_key_copy(k)); MC_CHECK(c && same(c->pri_data, k->pri_data) && same(c->pub_data, k->pub_data), "copy", "copy differs");
        OBuf f(wickr_ec_key_get_pubdata_fixed_len(k)); MC_CHECK(f && f->length == P521_PUB_KEY_MAX_SIZE && is(f.get(), oct(pt[i], false)), "fixed-length", "fixed-length public key"); MC_CHECK(!openssl_ec_key_import(nullptr, true) && !openssl_ec_key_import(nullptr, false), "null", "nothing imported"); mc::outcome("ok"); mc::state(i); });
    mc::part("random-keys", [&] { int i = mc::choose(mc::tier(60, 600), "n"); rng_seed(1000 + i); OEc k(openssl_ec_rand_key(EC_CURVE_NIST_P521)), l(openssl_ec_rand_key(EC_CURVE_NIST_P521)); mc::step(); MC_CHECK(k && l && !same(k->pub_data, l->pub_data), "random-key", "two random keys are the same"); OEc r(openssl_ec_key_import(k->pri_data, true)), p(openssl_ec_key_import(k->pub_data, false)); MC_CHECK(r && p && same(r->pub_data, k->pub_data) && same(p->pub_data, k->pub_data) && same(r->pri_data, k->pri_data), "import", "random key changes when imported"); OBuf f(wickr_ec_key_get_pubdata_fixed_len(k.get())); MC_CHECK(f && f->length == 134, "fixed-length", "fixed-length public key"); mc::outcome("ok"); mc::state(i); });
    mc::part("agreement", [&] { int i = mc::choose(K, "ours"), j = mc::choose(K, "theirs"); EC_POINT *q = EC_POINT_new(G); EC_POINT_mul(G, q, nullptr, pt[j], sc[i], C); BIGNUM *x = BN_new(); bool inf = EC_POINT_is_at_infinity(G, q); if (!inf) EC_POINT_get_affine_coordinates(G, q, x, nullptr, C); Bytes want = bnb(x); BN_free(x); EC_POINT_free(q);
        OBuf a(openssl_gen_shared_secret(key[i].get(), pub[j].get())), b(openssl_gen_shared_secret(key[j].get(), pub[i].get())), c(openssl_gen_shared_secret(key[i].get(), key[j].get())); mc::step(2);
        MC_CHECK(a && is(a.get(), want), "secret", "shared secret of keys %d and %d is not the full-size x coordinate of the product", i, j); MC_CHECK(b && same(a.get(), b.get()) && c && same(a.get(), c.get()), "asymmetric", "keys %d and %d: the sides disagree", i, j);
        MC_CHECK(!openssl_gen_shared_secret(pub[i].get(), pub[j].get()) && !openssl_gen_shared_secret(nullptr, pub[j].get()) && !openssl_gen_shared_secret(key[i].get(), nullptr), "no-private-key", "agreement without a private key"); mc::outcome(want[0] || want[1] ? "ok" : "short"); mc::state(mc::Hash().u(i).u(j).h); });
    mc::part("public-encodings", [&] { int i = mc::choose(K, "key"), f = mc::choose(12, "form"); Bytes u = oct(pt[i], false), c = oct(pt[i], true), x = u.substr(2, 66), y = u.substr(68), b; bool valid = false; Bytes same_as = u;
        BIGNUM *X = BN_bin2bn((const uint8_t *)x.data(), 66, nullptr), *Y = BN_bin2bn((const uint8_t *)y.data(), 66, nullptr); switch (f) { case 0: b = u; valid = true; break; case 1: b = c; valid = true; break; case 2: b = Bytes(1, 0) + Bytes(1, (char)(6 | (y[65] & 1))) + x + y; valid = true; break; case 3: b = Bytes(1, 0) + Bytes(1, (char)(6 | (~y[65] & 1))) + x + y; break; case 4: b = Bytes(2, 0); break; case 5: b = Bytes(1, 0) + Bytes(1, 0) + x + y; break; case 6: BN_add_word(Y, 1); b = u.substr(0, 2) + x + bnb(Y); break; case 7: b = u.substr(0, 2) + y + x; break;
            case 8: BN_add(X, X, P); b = BN_num_bytes(X) > 66 ? Bytes(2, 0) : u.substr(0, 2) + bnb(X) + y; break; case 9: BN_sub(Y, P, Y); b = u.substr(0, 2) + x + bnb(Y); valid = true; same_as.clear(); break; case 10: b = u.substr(0, 2) + Bytes(132, 0); break; case 11: b = u.substr(0, 2) + Bytes(132, (char)0xff); break; } BN_free(X); BN_free(Y);
        Exact e(b); OEc k(openssl_ec_key_import(e, false)); mc::step(); if (!valid) { MC_CHECK(!k, "invalid-point", "encoding form %d of key %d, which is not a point of the curve, accepted", f, i); mc::outcome("refused"); return; } if (f <= 0 || f == 9) MC_CHECK(k, "valid-refused", "valid point refused"); if (!k) { mc::outcome("refused"); return; } MC_CHECK(!k->pri_data, "private", "public key import made a private key");
        if (f < 3) { OBuf s(openssl_gen_shared_secret(key[3].get(), k.get())), t(openssl_gen_shared_secret(key[3].get(), pub[i].get())); MC_CHECK(s && same(s.get(), t.get()), "other-point", "encoding form %d denotes another point", f); } else MC_CHECK(is(k->pub_data, b), "other-point", "point changes when imported"); OEc again(openssl_ec_key_import(k->pub_data, false)); MC_CHECK(again && same(again->pub_data, k->pub_data), "reimport", "imported key does not import again"); OBuf fx(wickr_ec_key_get_pubdata_fixed_len(k.get())); MC_CHECK(fx && fx->length == 134, "fixed-length", "fixed length"); mc::outcome("ok"); mc::state(mc::Hash().u(i).u(f).h); });
    mc::part("public-bytes", [&] { int m = mc::choose(700, "alteration"); Bytes b = str(key[K - 1]->pub_data); if (m < 256) b[0] = (char)m; else if (m < 512) b[1] = (char)(m - 256); else if (m < 512 + 134) b.resize(m - 512); else b += Bytes(m - 645, (char)(m & 1 ? 0 : 0xff)); Exact e(b); OEc k(openssl_ec_key_import(e, false)); mc::step(); bool same_ = b == str(key[K - 1]->pub_data); if (same_) MC_CHECK(k, "valid-refused", "refused"); else if (k) { MC_CHECK(b[0] == 0 && b.size() <= 134, "altered-accepted", "public key with first bytes %02x %02x and %zu bytes accepted", (uint8_t)b[0], (uint8_t)b[1], b.size()); } mc::outcome(k ? "accepted" : "refused"); mc::state(mc::Hash().s(b).h); });
    mc::part("public-bits", [&] { int i = mc::choose(132 * 8, "bit"), q = mc::choose(2, "key"); Bytes b = str(key[K - 1 - q]->pub_data); b[2 + i / 8] ^= 1 << i % 8; Exact e(b); OEc k(openssl_ec_key_import(e, false)); mc::step(); MC_CHECK(!k, "off-curve", "point off the curve (bit %d altered) accepted", i); mc::outcome("refused"); mc::state(mc::Hash().u(i).u(q).h); });
    mc::part("private-bytes", [&] { const wickr_ec_key_t *k0 = key[K - 1].get(); Bytes b = str(k0->pri_data); int n = (int)b.size(), m = mc::choose(n * 8 + n + 20, "alteration"); if (m < n * 8) b[m / 8] ^= 1 << m % 8; else if (m < n * 9) b.resize(m - n * 8); else b += Bytes(m - n * 9 + 1, (char)(m & 1 ? 0 : 0xff)); Exact e(b);
        trk::reset(); trk::on = true; wickr_ec_key_t *k = openssl_ec_key_import(e, true); mc::step(); if (k) { wickr_ec_key_t *r = openssl_ec_key_import(k->pri_data, true); MC_CHECK(r && same(r->pub_data, k->pub_data) && same(r->pri_data, k->pri_data), "unstable", "accepted private key (alteration %d) does not survive export", m); wickr_ec_key_destroy(&r); MC_CHECK(k->curve.identifier == EC_CURVE_ID_NIST_P521 && (uint8_t)k->pub_data->bytes[0] == 0, "curve", "curve"); wickr_ec_key_destroy(&k); mc::outcome("other-key"); } else mc::outcome("refused"); trk::on = false; MC_CHECK(!trk::live(), "leak", "%s", trk::describe_live().c_str()); mc::state(m); });
    // private keys whose public point is, or comes out as, the point at infinity; scalars outside the field
    mc::part("private-infinity", [&] {
        int sc_ = mc::choose(5, "scalar"), pb = mc::choose(4, "public"); static const char *SN[] = { "0", "the order", "twice the order", "the order plus one", "an ordinary one" }; BIGNUM *d = BN_new(); BN_set_word(d, 0); if (sc_ == 1 || sc_ == 3) BN_copy(d, N); if (sc_ == 2) BN_add(d, N, N); if (sc_ == 3) BN_add_word(d, 1); if (sc_ == 4) BN_copy(d, sc[5]); if (BN_num_bytes(d) > 66) { BN_free(d); mc::prune(); }
        Bytes par("\xa0\x07\x06\x05\x2b\x81\x04\x00\x23", 9), pubs[] = { "", Bytes("\xa1\x04\x03\x02\x00\x00", 6), Bytes("\xa1\x81\x89\x03\x81\x86\x00", 7) + oct(pt[5], false).substr(1), Bytes("\xa1\x81\x89\x03\x81\x86\x00", 7) + Bytes(133, 0) }; Bytes body = Bytes("\x02\x01\x01\x04\x42", 5) + bnb(d) + par + pubs[pb], der = Bytes("\x30\x81", 2) + Bytes(1, (char)body.size()) + body; BN_free(d);
        bool good = sc_ == 4 && (pb == 0 || pb == 2); Bytes b = body.size() < 128 ? Bytes(1, 0x30) + Bytes(1, (char)body.size()) + body : der; Exact e(b); OEc k(openssl_ec_key_import(e, true)); mc::step(); if (good) MC_CHECK(k && is(k->pub_data, oct(pt[5], false)), "valid-refused", "a private key %s its public part is %s", pb ? "with" : "without", k ? "another key" : "refused");
        if (pb == 1 || pb == 3 || (pb == 0 && sc_ < 3)) MC_CHECK(!k, "invalid-point", "a private key with scalar %s and public part form %d is accepted", SN[sc_], pb); if (k) { OEc r(openssl_ec_key_import(k->pub_data, false)); MC_CHECK(r, "invalid-point", "the public part of an accepted private key (scalar %s, form %d) does not import", SN[sc_], pb); } mc::outcome(k ? "accepted" : "refused"); mc::state(mc::Hash().u(sc_).u(pb).h); });
    // data encrypted under an agreed key: every combination of derivation parameters on either side
    mc::part("agreed-cipher", [&] {
        struct P { const wickr_kdf_algo_t *algo; int salt, info; }; static const wickr_kdf_algo_t *al[] = { &KDF_HKDF_SHA256, &KDF_HKDF_SHA384, &KDF_HKDF_SHA512 }; static const Bytes val[] = { "", "context one", "context onE", "context" }; bool toy = mc::flip("engine"); static wickr_crypto_engine_t te = toy_engine(), re = real_engine(); wickr_crypto_engine_t &e = toy ? te : re; static std::map<bool, std::vector<OEc>> ks; auto &k = ks[toy]; if (k.empty()) { rng_seed(77); for (int i = 0; i < 3; i++) k.emplace_back(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); rng_seed(mc::seed() + 7); }
        P p = { al[mc::choose(3, "algorithm")], mc::choose(4, "salt"), mc::choose(4, "info") }; if (!p.salt && !p.info) mc::prune(); wickr_cipher_t ci = mc::flip("ctr") ? CIPHER_AES256_CTR : CIPHER_AES256_GCM; const Bytes pt = "the data that was agreed upon";
        auto meta = [&](const P &q) { OKdfMeta m(wickr_kdf_meta_create(*q.algo, q.salt ? mk(val[q.salt]) : nullptr, q.info ? mk(val[q.info]) : nullptr)); return m; };
        OEcdh a(wickr_ecdh_cipher_ctx_create_key(e, wickr_ec_key_copy(k[0].get()), ci)); OKdfMeta m = meta(p); Exact t(pt); OCipher c(wickr_ecdh_cipher_ctx_cipher(a.get(), t, k[1].get(), m.get())); MC_CHECK(c && c->cipher.cipher_id == ci.cipher_id, "encrypt", "nothing encrypted"); mc::state(mc::Hash().u(toy).u(p.algo->kdf_id).u(p.salt).u(p.info).u(ci.cipher_id).h);
        // the definition: HKDF of the shared secret, cut to the key's length
        { OBuf s(e.wickr_crypto_engine_gen_shared_secret(k[1].get(), k[0].get())); wickr_kdf_meta_t d = *m.get(); d.algo.output_size = ci.key_len; OKdf h(wickr_perform_kdf_meta(&d, s.get())); MC_CHECK(h, "derive", "nothing derived"); OKey ck(wickr_cipher_key_create(ci, wickr_buffer_copy(h->hash))); OBuf o(e.wickr_crypto_engine_cipher_decrypt(c.get(), nullptr, ck.get(), false)); MC_CHECK(o && is(o.get(), pt), "key", "not encrypted under the key derived from the shared secret"); }
        if (ci.cipher_id == CIPHER_ID_AES256_CTR) { OEcdh b(wickr_ecdh_cipher_ctx_create_key(e, wickr_ec_key_copy(k[1].get()), ci)); OBuf o(wickr_ecdh_cipher_ctx_decipher(b.get(), c.get(), k[0].get(), m.get())); MC_CHECK(o && is(o.get(), pt), "refused", "the other side cannot read"); mc::step(); mc::outcome("opens"); OEcdh g(wickr_ecdh_cipher_ctx_create_key(e, wickr_ec_key_copy(k[1].get()), CIPHER_AES256_GCM)); MC_CHECK(!wickr_ecdh_cipher_ctx_decipher(g.get(), c.get(), k[0].get(), m.get()), "other-cipher", "opens with a context of another cipher"); return; }
        for (int al2 = 0; al2 < 3; al2++) for (int s2 = 0; s2 < 4; s2++) for (int i2 = 0; i2 < 4; i2++) for (int l = 0; l < 3; l++) for (int r = 0; r < 3; r++) { P q = { al[al2], s2, i2 }; if (!s2 && !i2) continue; if (!toy && (al2 != 0) + (s2 != p.salt) + (i2 != p.info) + (l != 1) + (r != 0) > 1) continue;
            OEcdh b0(wickr_ecdh_cipher_ctx_create_key(e, wickr_ec_key_copy(k[l].get()), ci)), b(wickr_ecdh_cipher_ctx_copy(b0.get())); OKdfMeta mq = meta(q); OBuf o(wickr_ecdh_cipher_ctx_decipher((l ^ r) & 1 ? b.get() : b0.get(), c.get(), k[r].get(), mq.get())); mc::step(); bool exact = q.algo == p.algo && s2 == p.salt && i2 == p.info && ((l == 1 && r == 0) || (l == 0 && r == 1));
            MC_CHECK((bool)o == exact, exact ? "refused" : "opens", "algorithm %d, salt %d, info %d, keys 0 and 1 %s with algorithm %d, salt %d, info %d, keys %d and %d", p.algo->kdf_id, p.salt, p.info, o ? "opens" : "does not open", q.algo->kdf_id, s2, i2, l, r); if (o) MC_CHECK(is(o.get(), pt), "content", "opens as something else"); mc::outcome(exact ? "opens" : "refused"); }
        for (const wickr_kdf_algo_t *o : { &KDF_SCRYPT_2_17, &KDF_BCRYPT_15 }) { OKdfMeta x(wickr_kdf_meta_create(*o, mk(Bytes(o->salt_size, 's')), nullptr)); MC_CHECK(x && !wickr_ecdh_cipher_ctx_cipher(a.get(), t, k[1].get(), x.get()) && !wickr_ecdh_cipher_ctx_decipher(a.get(), c.get(), k[1].get(), x.get()), "passphrase", "agreement with a passphrase function"); }
    });
    return mc::finish();
}
