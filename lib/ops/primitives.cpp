#include <dirent.h>
#include <fcntl.h>
#include <unistd.h>
#include "../ops.hpp"
namespace ops {
std::vector<OpDef> primitives()
{
    std::vector<OpDef> v;
    add(v, "random", [](ER e) { return ret<OBuf>([=] { return e.wickr_crypto_engine_crypto_random(32); }, [](MB b) { OPX(b->length == 32, "length"); }); });
    add(v, "random-zero", [](ER e) { return ret<OBuf>([=] { return e.wickr_crypto_engine_crypto_random(0); }, [](MB b) { OPX(b->length == 0, "length"); }); }, 0);
    for (auto c : { CIPHER_AES256_GCM, CIPHER_AES256_CTR }) { std::string cn = c.is_authenticated ? "-gcm" : "-ctr";
        add(v, "cipher-key-random" + cn, [c](ER e) { return ret<OKey>([=] { return e.wickr_crypto_engine_cipher_key_random(c); }, [=](wickr_cipher_key_t *k) { OPX(k->cipher.cipher_id == c.cipher_id && k->key_data->length == c.key_len, "key"); }); });
        for (int iv = 0; iv < 2; iv++) add(v, "encrypt" + cn + (iv ? "-iv" : ""), [c, iv](ER e) { auto k = sp<OKey>(e.wickr_crypto_engine_cipher_key_random(c)); auto p = sp<Exact>(pat(40)), a = sp<Exact>("aad"), i = sp<Exact>(pat(c.iv_len, 9)); return ret<OCipher>([=] { return e.wickr_crypto_engine_cipher_encrypt(*p, c.is_authenticated ? (CB)*a : nullptr, k->get(), iv ? (CB)*i : nullptr); }, [=](wickr_cipher_result_t *r) { OBuf d(e.wickr_crypto_engine_cipher_decrypt(r, c.is_authenticated ? (CB)*a : nullptr, k->get(), false)); OPX(is(d.get(), pat(40)), "does not decrypt"); OPX(!is(r->cipher_text, pat(40)), "not encrypted"); OPX(!iv || is(r->iv, pat(c.iv_len, 9)), "other nonce"); OPX(!c.is_authenticated || (r->auth_tag && r->auth_tag->length == 16), "no tag"); }); });
        add(v, "decrypt" + cn, [c](ER e) { auto k = sp<OKey>(e.wickr_crypto_engine_cipher_key_random(c)); Exact p(pat(40)); auto r = sp<OCipher>(e.wickr_crypto_engine_cipher_encrypt(p, nullptr, k->get(), nullptr)); return ret<OBuf>([=] { return e.wickr_crypto_engine_cipher_decrypt(r->get(), nullptr, k->get(), false); }, [](MB b) { OPX(is(b, pat(40)), "plaintext"); }); });
    }
    add(v, "decrypt-altered", [](ER e) { auto k = sp<OKey>(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); Exact p(pat(40)); auto r = sp<OCipher>(e.wickr_crypto_engine_cipher_encrypt(p, nullptr, k->get(), nullptr)); (*r)->cipher_text->bytes[3] ^= 1; return ret<OBuf>([=] { return e.wickr_crypto_engine_cipher_decrypt(r->get(), nullptr, k->get(), false); }, [](MB) { MC_CHECK(false, "unauthenticated", "an altered ciphertext was decrypted"); }); }, 0);
    add(v, "decrypt-other-aad", [](ER e) { auto k = sp<OKey>(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); Exact p(pat(40)), a("aad"); auto r = sp<OCipher>(e.wickr_crypto_engine_cipher_encrypt(p, a, k->get(), nullptr)); auto b = sp<Exact>("abd"); return ret<OBuf>([=] { return e.wickr_crypto_engine_cipher_decrypt(r->get(), *b, k->get(), true); }, [](MB) { MC_CHECK(false, "unauthenticated", "decrypted with other associated data"); }); }, 0);
    for (auto g : { DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 }) {
        std::string gn = std::to_string(g.size); add(v, "digest-" + gn, [g](ER e) { Exact a("data"), s("salt"); auto want = sp<Bytes>(take(e.wickr_crypto_engine_digest(a, s, g))); auto d = sp<Exact>("data"), t = sp<Exact>("salt"); return ret<OBuf>([=] { return e.wickr_crypto_engine_digest(*d, *t, g); }, [=](MB b) { OPX(is(b, *want), "digest"); }); });
        add(v, "hmac-" + gn, [g](ER e) { Exact a("data"), s("key"); auto want = sp<Bytes>(take(e.wickr_crypto_engine_hmac_create(a, s, g))); auto d = sp<Exact>("data"), t = sp<Exact>("key"); return ret<OBuf>([=] { return e.wickr_crypto_engine_hmac_create(*d, *t, g); }, [=](MB b) { OPX(is(b, *want), "hmac"); }); });
        add(v, "hmac-verify-" + gn, [g](ER e) { Exact a("data"), s("key"); auto want = sp<OBuf>(e.wickr_crypto_engine_hmac_create(a, s, g)); auto d = sp<Exact>("data"), t = sp<Exact>("key"); return yes([=] { return e.wickr_crypto_engine_hmac_verify(*d, *t, g, want->get()); }); });
        add(v, "hmac-verify-wrong-" + gn, [g](ER e) { Exact a("data"), s("key"); auto want = sp<OBuf>(e.wickr_crypto_engine_hmac_create(a, s, g)); auto d = sp<Exact>("datb"), t = sp<Exact>("key"); return yes([=] { return e.wickr_crypto_engine_hmac_verify(*d, *t, g, want->get()); }); }, 0);
    }
    add(v, "ec-rand", [](ER e) { return ret<OEc>([=] { return e.wickr_crypto_engine_ec_rand_key(e.default_curve); }, [=](wickr_ec_key_t *k) { OPX(k->pub_data && k->pri_data, "incomplete key"); Exact d("x"); OSig s(e.wickr_crypto_engine_ec_sign(k, d, DIGEST_SHA_512)); OPX(s && e.wickr_crypto_engine_ec_verify(s.get(), k, d), "unusable key"); }); });
    for (int pri = 0; pri < 2; pri++) add(v, pri ? "ec-import-private" : "ec-import-public", [pri](ER e) { auto k = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); return ret<OEc>([=] { return e.wickr_crypto_engine_ec_key_import(pri ? (*k)->pri_data : (*k)->pub_data, pri); }, [=](wickr_ec_key_t *i) { OPX(same(i->pub_data, (*k)->pub_data) && (!pri || same(i->pri_data, (*k)->pri_data)) && (pri || !i->pri_data), "imported key"); }); });
    add(v, "ec-import-junk", [](ER e) { auto b = sp<Exact>(pat(60)); return ret<OEc>([=] { return e.wickr_crypto_engine_ec_key_import(*b, true); }, [](wickr_ec_key_t *) { OPX(false, "junk imported"); }); }, 0);
    add(v, "ec-sign", [](ER e) { auto k = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); auto d = sp<Exact>("data"); return ret<OSig>([=] { return e.wickr_crypto_engine_ec_sign(k->get(), *d, DIGEST_SHA_512); }, [=](wickr_ecdsa_result_t *s) { OPX(e.wickr_crypto_engine_ec_verify(s, k->get(), *d), "signature"); }); });
    for (int bad = 0; bad < 3; bad++) add(v, bad == 0 ? "ec-verify" : bad == 1 ? "ec-verify-other-data" : "ec-verify-other-key", [bad](ER e) { auto k = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)), k2 = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); auto d = sp<Exact>("data"), d2 = sp<Exact>("date"); auto s = sp<OSig>(e.wickr_crypto_engine_ec_sign(k->get(), *d, DIGEST_SHA_512)); return yes([=] { return e.wickr_crypto_engine_ec_verify(s->get(), bad == 2 ? k2->get() : k->get(), bad == 1 ? *d2 : *d); }); }, bad == 0);
    add(v, "ecdsa-to-raw", [](ER e) { auto k = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); auto d = sp<Exact>("data"); auto s = sp<OSig>(e.wickr_crypto_engine_ec_sign(k->get(), *d, DIGEST_SHA_512)); return ret<OBuf>([=] { return e.wickr_crypto_engine_ecdsa_to_raw(s->get()); }, [=](MB b) { OSig r(e.wickr_crypto_engine_ecdsa_from_raw(e.default_curve, DIGEST_SHA_512, b)); OPX(r && e.wickr_crypto_engine_ec_verify(r.get(), k->get(), *d), "raw signature"); }); });
    add(v, "ecdsa-from-raw", [](ER e) { auto k = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); auto d = sp<Exact>("data"); OSig s(e.wickr_crypto_engine_ec_sign(k->get(), *d, DIGEST_SHA_512)); auto b = sp<OBuf>(e.wickr_crypto_engine_ecdsa_to_raw(s.get())); return ret<OSig>([=] { return e.wickr_crypto_engine_ecdsa_from_raw(e.default_curve, DIGEST_SHA_512, b->get()); }, [=](wickr_ecdsa_result_t *r) { OPX(e.wickr_crypto_engine_ec_verify(r, k->get(), *d), "signature from raw"); }); });
    add(v, "shared-secret", [](ER e) { auto a = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)), b = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); return ret<OBuf>([=] { return e.wickr_crypto_engine_gen_shared_secret(a->get(), b->get()); }, [=](MB x) { OBuf y(e.wickr_crypto_engine_gen_shared_secret(b->get(), a->get())); OPX(same(x, y.get()), "secret"); OPX(x->length > 8 && str(x) != Bytes(x->length, 0), "zero secret"); }); });
    for (auto a : { KDF_SCRYPT_2_17, KDF_BCRYPT_15, KDF_HKDF_SHA256, KDF_HKDF_SHA384, KDF_HKDF_SHA512 }) { std::string an = std::to_string(a.kdf_id);
        add(v, "kdf-" + an, [a](ER e) { auto p = sp<Exact>("pass phrase"); return ret<OKdf>([=] { return e.wickr_crypto_kdf_gen(a, *p); }, [=](wickr_kdf_result_t *r) { OPX(r->meta && r->hash && r->hash->length && r->meta->salt && r->meta->salt->length, "sizes"); OKdf y(e.wickr_crypto_kdf_meta(r->meta, *p)); OPX(y && same(y->hash, r->hash), "cannot be derived again"); }); });
        add(v, "kdf-meta-" + an, [a](ER e) { auto p = sp<Exact>("pass phrase"); auto r = sp<OKdf>(e.wickr_crypto_kdf_gen(a, *p)); return ret<OKdf>([=] { return e.wickr_crypto_kdf_meta((*r)->meta, *p); }, [=](wickr_kdf_result_t *x) { OPX(dmp(x) == dmp(r->get()), "derived key"); }); }); }
    add(v, "kdf-bcrypt-bad-salt", [](ER e) { auto p = sp<Exact>("pass phrase"); auto r = sp<OKdf>(e.wickr_crypto_kdf_gen(KDF_BCRYPT_15, *p)); auto m = sp<OKdfMeta>(wickr_kdf_meta_copy((*r)->meta)); (*m)->salt->bytes[3] = 0; return ret<OKdf>([=] { return e.wickr_crypto_kdf_meta(m->get(), *p); }, [](wickr_kdf_result_t *) { OPX(false, "a key was derived with a salt that is none"); }); }, 0);
    add(v, "kdf-expand", [](ER e) { auto p = sp<Exact>(pat(64)); auto m = sp<OKdfMeta>(wickr_kdf_meta_create_hkdf_expand(&DIGEST_SHA_512, mk("info"), 100)); auto want = sp<OKdf>(e.wickr_crypto_kdf_meta(m->get(), *p)); return ret<OKdf>([=] { return e.wickr_crypto_kdf_meta(m->get(), *p); }, [=](wickr_kdf_result_t *x) { OPX(dmp(x) == dmp(want->get()), "expanded key"); }); });
    add(v, "kdf-cipher", [](ER e) { auto p = sp<Exact>("a long phrase"), t = sp<Exact>(pat(50)); return ret<OBuf>([=] { return wickr_crypto_engine_kdf_cipher(&e, KDF_SCRYPT_2_17, CIPHER_AES256_GCM, *t, *p); }, [=](MB b) { OBuf d(wickr_crypto_engine_kdf_decipher(&e, b, *p)); OPX(is(d.get(), pat(50)), "does not open"); OPX(str(b).find(pat(50)) == Bytes::npos, "not encrypted"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "kdf-decipher-wrong" : "kdf-decipher", [bad](ER e) { auto p = sp<Exact>("a long phrase"), q = sp<Exact>(bad ? "a long phrbse" : "a long phrase"), t = sp<Exact>(pat(50)); auto b = sp<OBuf>(wickr_crypto_engine_kdf_cipher(&e, KDF_SCRYPT_2_17, CIPHER_AES256_GCM, *t, *p)); return ret<OBuf>([=] { return wickr_crypto_engine_kdf_decipher(&e, b->get(), *q); }, [=](MB x) { MC_CHECK(!bad, "unauthenticated", "opened with a wrong passphrase"); OPX(is(x, pat(50)), "plaintext"); }); }, !bad);
    add(v, "test-key", [](ER) { return ret<OEc>([=] { return openssl_ec_key_import_test_key(EC_CURVE_NIST_P521, "0123456789abcdef0123456789abcdef"); }, [](wickr_ec_key_t *k) { OPX(k->pri_data && k->pub_data, "incomplete"); }); });
    add(v, "hkdf", [](ER) { auto k = sp<Exact>(pat(32)), s = sp<Exact>(pat(16)), i = sp<Exact>("info"); auto w = sp<Bytes>(take(openssl_hkdf(*k, *s, *i, DIGEST_SHA_512))); return ret<OBuf>([=] { return openssl_hkdf(*k, *s, *i, DIGEST_SHA_512); }, [=](MB b) { OPX(is(b, *w), "hkdf"); }); });
    add(v, "hkdf-expand", [](ER) { auto k = sp<Exact>(pat(64)), i = sp<Exact>("info"); auto w = sp<Bytes>(take(openssl_hkdf_expand(*k, *i, DIGEST_SHA_512, 200))); return ret<OBuf>([=] { return openssl_hkdf_expand(*k, *i, DIGEST_SHA_512, 200); }, [=](MB b) { OPX(is(b, *w), "expand"); }); });
    return v;
}
// file operations leave no temporary file behind, and no file open
static int open_files() { int n = 0; for (int fd = 3; fd < 256; fd++) n += fcntl(fd, F_GETFD) != -1; return n; }
static Inst tidy(Inst i)
{
    auto check = i.check; int before = open_files();
    i.check = [=]() -> int { DIR *d = opendir(mc::scratch().c_str()); std::string left; while (dirent *x = d ? readdir(d) : nullptr) if (strstr(x->d_name, ".temp")) { left = x->d_name; ::unlink((mc::scratch() + "/" + left).c_str()); } if (d) closedir(d); MC_CHECK(left.empty(), "file-left-over", "the file %s was left behind", left.c_str()); int now = open_files(); MC_CHECK(now == before, "file-left-open", "%d files were open before, %d after", before, now); return check(); };
    return i;
}
std::vector<OpDef> files()
{
    std::vector<OpDef> v; auto path = [](const char *n) { return mc::scratch() + "/" + n + (pat_salt ? std::to_string(pat_salt) : ""); };
    for (auto c : { CIPHER_AES256_GCM, CIPHER_AES256_CTR }) for (int n : { 40, 70000 }) { std::string cn = std::string(c.is_authenticated ? "-gcm" : "-ctr") + (n > 100 ? "-large" : "");
        add(v, "encrypt-file" + cn, [=](ER e) { auto k = sp<OKey>(e.wickr_crypto_engine_cipher_key_random(c)); write_file(path("in"), pat(n)); ::unlink(path("out").c_str()); return tidy(yes([=] { return e.wickr_crypto_engine_encrypt_file(k->get(), path("in").c_str(), path("out").c_str()); })); });
        for (int bad = 0; bad < 2; bad++) add(v, (bad ? "decrypt-file-altered" : "decrypt-file") + cn, [=](ER e) { auto k = sp<OKey>(e.wickr_crypto_engine_cipher_key_random(c)); write_file(path("in"), pat(n)); e.wickr_crypto_engine_encrypt_file(k->get(), path("in").c_str(), path("enc").c_str()); if (bad) { Bytes s = read_file(path("enc")); s[s.size() - 3] ^= 1; write_file(path("enc"), s); } ::unlink(path("out").c_str()); auto r = sp<bool>(false);
            return tidy(Inst{ [=] { *r = e.wickr_crypto_engine_decrypt_file(k->get(), path("enc").c_str(), path("out").c_str(), false); }, [=]() -> int { bool ex = false; Bytes got = read_file(path("out"), &ex); if (!*r) { MC_CHECK(!ex, "partial-result", "a failed decryption left %zu bytes in the destination", got.size()); return 0; } if (c.is_authenticated) MC_CHECK(!bad, "unauthenticated", "altered file decrypted"); OPX(bad || got == pat(n), "file content"); return 1; }, [=] { *r = false; ::unlink(path("out").c_str()); }, true }); }, !(bad && c.is_authenticated)); }
    return v;
}
}
