// E03: digests, message authentication and key derivation match their definitions
#include "w.hpp"
#include <openssl/sha.h>
extern "C" int libscrypt_scrypt(const uint8_t *, size_t, const uint8_t *, size_t, uint64_t, uint32_t, uint32_t, uint8_t *, size_t);
extern "C" char *crypt_rn(const char *key, const char *setting, void *data, int size);

static const wickr_digest_t DG[3] = { DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 };
static const size_t HL[3] = { 32, 48, 64 }, BL[3] = { 64, 128, 128 };
static Bytes H(int i, const Bytes &d) { uint8_t o[64]; const uint8_t *p = (const uint8_t *)d.data(); if (i == 0) SHA256(p, d.size(), o); else if (i == 1) SHA384(p, d.size(), o); else SHA512(p, d.size(), o); return Bytes((char *)o, HL[i]); }
static Bytes hmac(int i, Bytes k, const Bytes &m) { if (k.size() > BL[i]) k = H(i, k); k.resize(BL[i], 0); Bytes a = k, b = k; for (size_t j = 0; j < BL[i]; j++) { a[j] ^= 0x36; b[j] ^= 0x5c; } return H(i, b + H(i, a + m)); }     // RFC 2104
static Bytes expand(int i, const Bytes &prk, const Bytes &info, size_t n) { Bytes t, o; for (int c = 1; o.size() < n; c++) { t = hmac(i, prk, t + info + Bytes(1, (char)c)); o += t; } return o.substr(0, n); }                                    // RFC 5869
static Bytes hkdf(int i, const Bytes &salt, const Bytes &ikm, const Bytes &info, size_t n) { return expand(i, hmac(i, salt.empty() ? Bytes(HL[i], 0) : salt, ikm), info, n); }
struct View { CB p; std::unique_ptr<Exact> e; View(const Bytes &s, bool present = true) : p(nullptr) { if (present) { e.reset(new Exact(s)); p = *e; } } };

int main(int argc, char **argv)
{
    mc::init("E03", "model_checking", "every data, salt and key length of windows around digest and file block boundaries for every digest, every altered bit and length of an expected code, every information, salt, key and output length class of the derivation, and every pair of parameters of the passphrase functions", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); kdf_real = 0; });
    mc::assume("OpenSSL's one-shot SHA-2 functions implement SHA-2; HMAC and HKDF are rebuilt from them as RFC 2104 and RFC 5869 say; scrypt and bcrypt are stood in for by functions that depend on every argument, except in the part that runs the real ones; bcrypt passphrases are text of at most 72 bytes");
    std::vector<int> lens; for (int i = 0; i <= mc::tier(140, 300); i++) lens.push_back(i); for (int c : { 256, 4096, 8192, 12288 }) for (int d = -2; d <= 2; d++) lens.push_back(c + d);
    std::vector<int> salts = { -1, 0, 1, 16, 63, 64, 65, 111, 112, 128, 255, 256, 257, 1024 };
    mc::part("digest", [&] { int n = mc::pick(lens, "length"), s = mc::pick(salts, "salt"), g = mc::choose(3, "digest"); Bytes d = pat(n, 1), sa = s < 0 ? Bytes() : pat(s, 2); View vd(d), vs(sa, s >= 0); OBuf r(openssl_sha2(vd.p, vs.p, DG[g])); mc::step();
        MC_CHECK(is(r.get(), H(g, d + sa)), "digest", "digest %d of %d bytes with a salt of %d: not the definition", g, n, s); mc::outcome("ok"); mc::state(mc::Hash().u(n).u(s + 1).u(g).h); });
    mc::part("file", [&] { std::vector<int> fl; for (int c : { 0, 64, 128, 1024, 4096, 8192, 12288, 65536, 131072 }) for (int d = -2; d <= 2; d++) if (c + d >= 0) fl.push_back(c + d); int n = mc::pick(fl, "size"), g = mc::choose(3, "digest"), buf = mc::choose(4, "stdio-buffer"); Bytes d = pat(n, 1);
        std::string p = mc::scratch() + "/f"; write_file(p, d); FILE *f = fopen(p.c_str(), "rb"); if (buf) setvbuf(f, nullptr, buf == 1 ? _IONBF : _IOFBF, buf == 1 ? 0 : buf == 2 ? 100 : 65536); OBuf r(openssl_sha2_file(f, DG[g])); fclose(f); mc::step();
        MC_CHECK(is(r.get(), H(g, d)), "file", "digest %d of a file of %d bytes: not that of its bytes", g, n); mc::outcome("ok"); mc::state(mc::Hash().u(n).u(g).u(buf).h); });
    mc::part("long", [&] { static const std::vector<int> ns = { 32768, 65535, 65536, 65537, 100000, 262144, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3000001 }; int n = mc::pick(ns, "length"), g = mc::choose(3, "digest"), what = mc::choose(5, "as"); Bytes big = pat(n, 1), small = pat(20, 2); View vb(big), vs(small); mc::step(); OBuf r; Bytes want;
        if (what == 0) { r.reset(openssl_sha2(vb.p, vs.p, DG[g])); want = H(g, big + small); } else if (what == 1) { r.reset(openssl_sha2(vs.p, vb.p, DG[g])); want = H(g, small + big); } else if (what == 2) { r.reset(openssl_hmac_create(vb.p, vs.p, DG[g])); want = hmac(g, small, big); } else if (what == 3) { r.reset(openssl_hmac_create(vs.p, vb.p, DG[g])); want = hmac(g, big, small); }
        else { std::string p = mc::scratch() + "/f"; write_file(p, big); FILE *f = fopen(p.c_str(), "rb"); r.reset(openssl_sha2_file(f, DG[g])); fclose(f); want = H(g, big); } MC_CHECK(is(r.get(), want), "long", "digest %d, use %d, %d bytes: not the definition", g, what, n); mc::outcome("ok"); mc::state(mc::Hash().u(n).u(g).u(what).h); });
    mc::part("hmac", [&] { int kl = mc::pick(lens, "key"), dl = mc::pick(std::vector<int>{ 0, 1, 20, 63, 64, 65, 111, 112, 113, 127, 128, 129, 300 }, "data"), g = mc::choose(3, "digest"); Bytes k = pat(kl, 3), d = pat(dl, 4); View vk(k), vd(d); OBuf r(openssl_hmac_create(vd.p, vk.p, DG[g])); mc::step();
        MC_CHECK(is(r.get(), hmac(g, k, d)), "hmac", "code %d with a key of %d over %d bytes: not the definition", g, kl, dl); MC_CHECK(openssl_hmac_verify(vd.p, vk.p, DG[g], r.get()), "hmac-verify", "right code refused"); mc::outcome("ok"); mc::state(mc::Hash().u(kl).u(dl).u(g).h); });
    mc::part("hmac-verify", [&] { int g = mc::choose(3, "digest"), m = mc::choose(5, "wrong"), i = m == 0 ? mc::choose((int)HL[g] * 8, "bit") : m == 1 ? mc::choose((int)HL[g] * 2 + 1, "length") : mc::choose(3, "which"); Bytes k = pat(40, 3), d = pat(30, 4), c = hmac(g, k, d), want = c;
        trk::reset(); trk::on = true; bool r; { if (m == 0) c[i / 8] ^= 1 << i % 8; else if (m == 1) c = (c + c).substr(0, i); else if (m == 2) k[i] ^= 1; else if (m == 3) d[i] ^= 1; wickr_digest_t dg = m == 4 ? DG[i] : DG[g]; View vk(k), vd(d), vc(c); r = openssl_hmac_verify(vd.p, vk.p, dg, vc.p); mc::step(); if (m == 4) MC_CHECK(!openssl_hmac_verify(vd.p, vk.p, dg, nullptr) && !openssl_hmac_verify(nullptr, vk.p, dg, vc.p) && !openssl_hmac_verify(vd.p, nullptr, dg, vc.p), "hmac-missing", "missing argument accepted"); }
        trk::on = false; bool same = (m == 1 && i == (int)HL[g]) || (m == 4 && i == g); MC_CHECK(r == same, "hmac-wrong-accepted", "digest %d, alteration %d at %d: %s", g, m, i, r ? "accepted" : "refused"); MC_CHECK(trk::live() == 0, "leak", "%s", trk::describe_live().c_str()); mc::outcome(r ? "accepted" : "refused"); mc::state(mc::Hash().u(g).u(m).u(i).h); });
    mc::part("hkdf", [&] { int il = mc::pick(std::vector<int>{ 1, 16, 32, 63, 64, 65, 127, 128, 129, 200 }, "input"), sl = mc::pick(salts, "salt"), nl = mc::pick(std::vector<int>{ -1, 0, 1, 16, 63, 64, 200, 1023, 1024, 1025 }, "info"), g = mc::choose(3, "digest"); Bytes k = pat(il, 5), s = pat(sl < 0 ? 0 : sl, 6), n = pat(nl < 0 ? 0 : nl, 7); View vk(k), vs(s, sl >= 0), vn(n, nl >= 0);
        trk::reset(); trk::on = true; MB r = openssl_hkdf(vk.p, vs.p, vn.p, DG[g]); mc::step(); if (nl > 1024) MC_CHECK(!r, "hkdf-info", "information of %d bytes accepted", nl); else MC_CHECK(is(r, hkdf(g, s, k, n, HL[g])), "hkdf", "derivation with input %d, salt %d, information %d, digest %d: not the definition", il, sl, nl, g);
        wickr_buffer_destroy(&r); trk::on = false; MC_CHECK(trk::live() == 0, "leak", "%s", trk::describe_live().c_str()); mc::outcome(nl > 1024 ? "refused" : "ok"); mc::state(mc::Hash().u(il).u(sl + 1).u(nl + 1).u(g).h); });
    mc::part("expand", [&] { int g = mc::choose(3, "digest"), ol = mc::choose(mc::tier(300, 1300), "output") + 1; if (ol > (int)mc::tier(290, 1290)) ol = (int)HL[g] * 255 + (ol - (int)mc::tier(295, 1295)); int nl = mc::pick(std::vector<int>{ 1, 33, 1024 }, "info"); Bytes k = pat(HL[g], 5), n = pat(nl, 7); View vk(k), vn(n);
        OBuf r(openssl_hkdf_expand(vk.p, vn.p, DG[g], ol)); mc::step(); if (ol > (int)HL[g] * 255) MC_CHECK(!r, "expand-too-long", "output of %d bytes", ol); else MC_CHECK(is(r.get(), expand(g, k, n, ol)), "expand", "expansion to %d bytes with digest %d: not the definition", ol, g); mc::outcome(r ? "ok" : "refused"); mc::state(mc::Hash().u(g).u(ol).u(nl).h);
        // through the parameter object
        if (g == 2 && nl == 33) for (int dg = 0; dg < 3; dg++) { MB info = mk(n); wickr_kdf_meta_t *m = wickr_kdf_meta_create_hkdf_expand(&DG[dg], info, ol); if (!m) { wickr_buffer_destroy(&info); MC_CHECK(dg != 2 || ol > 255, "expand-meta", "expansion to %d bytes refused", ol); continue; } OKdf q(wickr_perform_kdf_meta(m, vk.p)); wickr_kdf_meta_destroy(&m); MC_CHECK(q && is(q->hash, expand(dg, k, n, ol)), "expand-output-length", "expansion to %d bytes gives %zu", ol, q ? q->hash->length : 0); } });
    // ---- parameterised derivation ---------------------------------------------------------------------------
    struct A { const wickr_kdf_algo_t *a; int log_n; int dg; }; static const std::vector<A> AL = { { &KDF_SCRYPT_2_17, 17, -1 }, { &KDF_SCRYPT_2_18, 18, -1 }, { &KDF_SCRYPT_2_19, 19, -1 }, { &KDF_SCRYPT_2_20, 20, -1 }, { &KDF_BCRYPT_15, 0, -1 }, { &KDF_HKDF_SHA256, 0, 0 }, { &KDF_HKDF_SHA384, 0, 1 }, { &KDF_HKDF_SHA512, 0, 2 } };
    auto reference = [](const A &a, const Bytes &salt, const Bytes &info, const Bytes &pass) { if (a.log_n) { uint8_t o[32]; libscrypt_scrypt((const uint8_t *)pass.data(), pass.size(), (const uint8_t *)salt.data(), salt.size(), 1ull << a.log_n, 8, 1, o, 32); return Bytes((char *)o, 32); }
        if (a.dg >= 0) return hkdf(a.dg, salt, pass, info, HL[a.dg]); char o[64]; memset(o, 0, 64); crypt_rn(pass.c_str(), ("$2y$15$" + salt).c_str(), o, 64); return Bytes(o); };
    const std::vector<Bytes> pass = { "a", "b", "aa", "correct horse", "correct horse ", "Correct horse", pat(31, 1) + "x", Bytes(72, 'p'), Bytes(71, 'p'), Bytes("a\0b", 3), Bytes("a\0c", 3), Bytes(255, 'p'), Bytes(256, 'p'), Bytes(257, 'p'), Bytes(512, 'p'), Bytes(4097, 'p'), Bytes(65537, 'p') };
    mc::part("passphrase", [&] { const A &a = mc::pick(AL, "function"); Bytes p = mc::pick(pass, "passphrase"); auto text = [&](const Bytes &q) { return a.a->algo_id != KDF_BCRYPT || (q.size() <= 72 && q.find('\0') == Bytes::npos); }; if (!text(p)) mc::prune(); View vp(p); OKdf r(wickr_perform_kdf(*a.a, vp.p)), r2(wickr_perform_kdf(*a.a, vp.p)); mc::step();
        MC_CHECK(r && r2 && r->meta && r->hash && r->meta->salt, "kdf", "derivation failed"); MC_CHECK(r->meta->algo.kdf_id == a.a->kdf_id && r->meta->salt->length == a.a->salt_size, "kdf-meta", "recorded parameters are not those used"); MC_CHECK(!same(r->meta->salt, r2->meta->salt) && !same(r->hash, r2->hash), "salt-repeated", "two derivations with one salt");
        MC_CHECK(is(r->hash, reference(a, str(r->meta->salt), Bytes(), p)), "kdf-definition", "function %d: not the definition", a.a->kdf_id);
        OBuf s(wickr_kdf_meta_serialize(r->meta)); MC_CHECK(is(s.get(), Bytes(1, (char)a.a->kdf_id) + str(r->meta->salt)), "meta-serialise", "recorded parameters serialise wrongly"); OKdfMeta m(wickr_kdf_meta_create_with_buffer(s.get())), mc_(wickr_kdf_meta_copy(r->meta)); if (a.dg < 0) MC_CHECK(m, "meta-reread", "recorded parameters cannot be reread");
        Bytes trail = str(s.get()) + "trailing cipher text"; Exact tb(trail); if (a.dg < 0) MC_CHECK(wickr_kdf_meta_size_with_buffer(tb) == s->length, "meta-size", "size of recorded parameters wrong"); OKdfMeta mt(wickr_kdf_meta_create_with_buffer(tb));
        for (wickr_kdf_meta_t *x : { m.get(), mc_.get(), mt.get() }) if (x) { for (auto &q : pass) { if (!text(q)) continue; View vq(q); OKdf y(wickr_perform_kdf_meta(x, vq.p)); mc::step(); MC_CHECK(y && same(y->hash, r->hash) == (q == p), "kdf-reproduce", "function %d: passphrase %s %s", a.a->kdf_id, hex(q).c_str(), q == p ? "does not reproduce the result" : "gives the same result as another"); MC_CHECK(same(y->meta->salt, r->meta->salt), "kdf-meta", "salt not recorded"); } }
        mc::outcome("ok"); mc::state(mc::Hash().u(a.a->kdf_id).s(p).h); });
    mc::part("parameters", [&] {  // every single recorded parameter matters
        const A &a = mc::pick(AL, "function"); int ss = a.a->salt_size, w = mc::choose(ss + 3, "changed"); Bytes salt = a.a->algo_id == KDF_BCRYPT ? Bytes("abcdefghijklmnopqrstuu").substr(0, ss) : pat(ss, 3), p = "correct horse"; View vp(p); auto run = [&](const A &x, const Bytes &s, const Bytes &i) { wickr_buffer_t sb = view(s), ib = view(i); wickr_kdf_meta_t m = { *x.a, &sb, i.empty() ? nullptr : &ib }; OKdf r(wickr_perform_kdf_meta(&m, vp.p)); mc::step(); MC_CHECK(!r || is(r->hash, reference(x, s, i, p)), "kdf-definition", "function %d: not the definition", x.a->kdf_id); return r ? str(r->hash) : Bytes(); };
        Bytes base = run(a, salt, ""); MC_CHECK(!base.empty(), "kdf", "derivation failed"); if (w < ss) { Bytes s = salt; s[w] = s[w] == 'e' ? 'O' : 'e'; if (a.a->algo_id == KDF_BCRYPT && w == ss - 1) s[w] = 'O'; MC_CHECK(run(a, s, "") != base, "salt-ignored", "function %d: byte %d of the salt does not matter", a.a->kdf_id, w); }
        else if (w == ss) { if (a.dg >= 0) MC_CHECK(run(a, salt, "info") != base && run(a, salt, "info2") != run(a, salt, "info"), "info-ignored", "information does not matter"); } else if (w == ss + 1) { for (auto &b : AL) if (b.a->kdf_id != a.a->kdf_id && b.a->salt_size == ss) { Bytes o = run(b, salt, ""); MC_CHECK(o.empty() || o != base, "function-ignored", "functions %d and %d agree", a.a->kdf_id, b.a->kdf_id); } }
        else { for (int n = 0; n < 70; n++) { MB s = mk(pat(n)); wickr_kdf_meta_t *m = wickr_kdf_meta_create(*a.a, s, nullptr); bool good = a.dg >= 0 ? n > 0 : n == ss; MC_CHECK((m != nullptr) == good, "salt-size", "function %d with a salt of %d bytes: %s", a.a->kdf_id, n, m ? "accepted" : "refused"); if (m) wickr_kdf_meta_destroy(&m); else wickr_buffer_destroy(&s); } }
        mc::outcome("ok"); mc::state(mc::Hash().u(a.a->kdf_id).u(w).h); });
    mc::part("lookup", [&] {     // every number that may name a digest, a cipher, a curve or a function
        int id = mc::choose(256, "number"); mc::step(); mc::state(id); const wickr_digest_t *g = wickr_digest_find_with_id((uint8_t)id), *want = nullptr; for (auto &x : DG) if (x.digest_id == id) want = &x; MC_CHECK(!g == !want, "digest-lookup", "digest %d: %s", id, g ? "found" : "missing");
        if (g) { size_t i = g->digest_id == DIGEST_SHA_256.digest_id ? 0 : g->digest_id == DIGEST_SHA_384.digest_id ? 1 : 2; MC_CHECK(g->size == HL[i], "digest-lookup", "digest %d of %d bytes", id, (int)g->size); const wickr_kdf_algo_t *a = wickr_hkdf_algo_for_digest(*g); MC_CHECK(a && a->algo_id == KDF_HMAC_SHA2 && a->output_size == HL[i] && a->kdf_id == (i == 0 ? KDF_HKDF_SHA256 : i == 1 ? KDF_HKDF_SHA384 : KDF_HKDF_SHA512).kdf_id, "hkdf-lookup", "digest %d maps to another derivation", id); mc::outcome("digest"); } else { wickr_digest_t bad = DIGEST_SHA_256; bad.digest_id = (decltype(bad.digest_id))id; MC_CHECK(!wickr_hkdf_algo_for_digest(bad), "hkdf-lookup", "unknown digest %d has a derivation", id); mc::outcome("unknown"); }
        const wickr_cipher_t *c = wickr_cipher_find((uint8_t)id); bool gcm = id == CIPHER_AES256_GCM.cipher_id, ctr = id == CIPHER_AES256_CTR.cipher_id; MC_CHECK((c != nullptr) == (gcm || ctr), "cipher-lookup", "cipher %d: %s", id, c ? "found" : "missing"); if (c) MC_CHECK(c->cipher_id == id && c->key_len == 32 && (gcm ? c->is_authenticated && c->iv_len == 12 && c->auth_tag_len == 16 : !c->is_authenticated && c->iv_len == 16), "cipher-lookup", "cipher %d has other parameters", id);
        const wickr_ec_curve_t *k = wickr_ec_curve_find((uint8_t)id); MC_CHECK((k != nullptr) == (id == EC_CURVE_NIST_P521.identifier), "curve-lookup", "curve %d: %s", id, k ? "found" : "missing"); if (k) { const wickr_digest_t d = wickr_digest_matching_curve(*k); MC_CHECK(d.digest_id == DIGEST_SHA_512.digest_id, "curve-digest", "the curve goes with digest %d", d.digest_id); } });
    mc::part("real-functions", [&] { const A &a = AL[mc::thorough() ? mc::choose(5, "function") : 4 * mc::choose(2, "function")]; kdf_real = 1; Bytes p = "correct horse"; View vp(p); OKdf r(wickr_perform_kdf(*a.a, vp.p)); mc::step(); MC_CHECK(r && is(r->hash, reference(a, str(r->meta->salt), Bytes(), p)), "kdf-definition", "real function %d: not the definition", a.a->kdf_id); OKdf y(wickr_perform_kdf_meta(r->meta, vp.p)); MC_CHECK(y && same(y->hash, r->hash), "kdf-reproduce", "not reproduced"); kdf_real = 0; mc::outcome("ok"); mc::state(a.a->kdf_id); });
    return mc::finish();
}
