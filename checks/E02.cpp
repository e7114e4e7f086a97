// E02: signatures verify exactly for the signed data and key, in every representation
#include "w.hpp"
#include <openssl/ec.h>
#include <openssl/ecdsa.h>
#include <openssl/bn.h>
#include <openssl/obj_mac.h>
#include <openssl/sha.h>

static const wickr_digest_t DG[3] = { DIGEST_SHA_256, DIGEST_SHA_384, DIGEST_SHA_512 };
static Bytes dgst(int i, const Bytes &d) { uint8_t o[64]; const uint8_t *p = (const uint8_t *)d.data(); if (i == 0) { SHA256(p, d.size(), o); return Bytes((char *)o, 32); } if (i == 1) { SHA384(p, d.size(), o); return Bytes((char *)o, 48); } SHA512(p, d.size(), o); return Bytes((char *)o, 64); }
// DER as X.690 defines it
static Bytes derlen(size_t n) { Bytes o; if (n < 128) o += (char)n; else if (n < 256) { o += (char)0x81; o += (char)n; } else { o += (char)0x82; o += (char)(n >> 8); o += (char)n; } return o; }
static Bytes derint(Bytes v) { size_t z = 0; while (z + 1 < v.size() && v[z] == 0) z++; v = v.substr(z); if (v.empty()) v = Bytes(1, 0); if (v[0] & 0x80) v = Bytes(1, 0) + v; return Bytes(1, 2) + derlen(v.size()) + v; }
static Bytes dersig(const Bytes &r, const Bytes &s) { Bytes b = derint(r) + derint(s); return Bytes(1, 0x30) + derlen(b.size()) + b; }
static Bytes pad66(const Bytes &v) { size_t z = 0; while (z < v.size() && v[z] == 0) z++; Bytes t = v.substr(z); return t.size() > 66 ? Bytes() : Bytes(66 - t.size(), 0) + t; }
struct Curve { EC_GROUP *g; BN_CTX *c; BIGNUM *n; Curve() { g = EC_GROUP_new_by_curve_name(NID_secp521r1); c = BN_CTX_new(); n = BN_new(); EC_GROUP_get_order(g, n, c); } };
static Curve *cv;
static Bytes bnbytes(const BIGNUM *b) { Bytes o(BN_num_bytes(b), 0); BN_bn2bin(b, (uint8_t *)o.data()); return o.empty() ? Bytes(1, 0) : o; }
static BIGNUM *bn(const Bytes &b) { return BN_bin2bn((const uint8_t *)b.data(), (int)b.size(), nullptr); }
// The public key under which (r, s) signs the digest e; r is moved up to the next one that is an x coordinate. Empty if out of range.
static Bytes key_for(Bytes &r, const Bytes &s, const Bytes &e)
{
    BIGNUM *R = bn(r), *S = bn(s), *E = bn(e), *ri = BN_new(), *u = BN_new(); EC_POINT *P = EC_POINT_new(cv->g), *Q = EC_POINT_new(cv->g); Bytes out;
    size_t len = r.size(); bool found = false;
    while (true) { if (BN_cmp(R, cv->n) >= 0 || BN_is_zero(R)) break; if (EC_POINT_set_compressed_coordinates(cv->g, P, R, 0, cv->c) == 1) { r = bnbytes(R); found = true; break; } BN_add_word(R, 1); if (bnbytes(R).size() > len) break; }
    if (found && BN_cmp(S, cv->n) < 0 && !BN_is_zero(S) && BN_cmp(R, cv->n) < 0) {
        BN_mod_inverse(ri, R, cv->n, cv->c); BN_mod_mul(u, E, ri, cv->n, cv->c); BN_sub(u, cv->n, u); BN_mod_mul(S, S, ri, cv->n, cv->c);      // Q = -e/r G + s/r P
        if (EC_POINT_mul(cv->g, Q, u, P, S, cv->c) == 1 && !EC_POINT_is_at_infinity(cv->g, Q)) { uint8_t b[200]; size_t n = EC_POINT_point2oct(cv->g, Q, POINT_CONVERSION_UNCOMPRESSED, b, sizeof b, cv->c); out = Bytes(1, (char)EC_CURVE_ID_NIST_P521) + Bytes((char *)b, n); }
    }
    BN_free(R); BN_free(S); BN_free(E); BN_free(ri); BN_free(u); EC_POINT_free(P); EC_POINT_free(Q); return out;
}
static Bytes number(int kind, int len) { Bytes b(len, 0); switch (kind) { case 0: b[0] = 1; break; case 1: b = Bytes(len, (char)0xff); break; case 2: b[0] = (char)0x80; break; case 3: b = pat(len, len); if (!b[0]) b[0] = 0x7f; b[0] &= 0x7f; if (!b[0]) b[0] = 3; break; } return b; }

// every representation of one signature: all must agree with `want` and with each other
static void representations(const Bytes &der, const Bytes &r, const Bytes &s, int dg, const wickr_ec_key_t *pub, const Bytes &data, bool want, const char *what)
{
    OSig sig(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DG[dg], mk(der))); Exact d(data); mc::step();
    bool v = openssl_ec_verify(sig.get(), pub, d); MC_CHECK(v == want, "verify", "%s: verification says %d", what, v);
    OBuf ser(wickr_ecdsa_result_serialize(sig.get()));
    if (der.size() + 2 <= P521_SIGNATURE_MAX_SIZE) {
        MC_CHECK(ser && ser->length == P521_SIGNATURE_MAX_SIZE, "serialise", "%s: serialised form has %zu bytes", what, ser ? ser->length : 0);
        OSig b(wickr_ecdsa_result_create_from_buffer(ser.get())); MC_CHECK(b && is(b->sig_data, der) && b->digest_mode.digest_id == sig->digest_mode.digest_id && b->curve.identifier == sig->curve.identifier, "reread", "%s: signature changes when reread", what);
        MC_CHECK(openssl_ec_verify(b.get(), pub, d) == want, "verify-reread", "%s: reread signature verifies differently", what);
    } else MC_CHECK(!ser, "serialise-oversize", "%s: oversized signature serialised", what);
    OBuf raw(openssl_ecdsa_to_raw(sig.get())); Bytes pr = pad66(r), ps = pad66(s);
    if (raw) {
        MC_CHECK(!pr.empty() && !ps.empty() && is(raw.get(), pr + ps), "to-raw", "%s: raw form is not the two components", what);
        OSig b(openssl_ecdsa_from_raw(EC_CURVE_NIST_P521, DG[dg], raw.get())); MC_CHECK(b && is(b->sig_data, dersig(r, s)), "from-raw", "%s: raw form reads back as another signature", what);
        MC_CHECK(openssl_ec_verify(b.get(), pub, d) == want, "verify-raw", "%s: verification %d, but %d after passing through the raw form", what, want, !want);
    } else MC_CHECK(!want, "to-raw-refused", "%s: valid signature has no raw form", what);
    mc::outcome(want ? "valid" : raw ? "invalid" : "refused");
}
int main(int argc, char **argv)
{
    mc::init("E02", "model_checking", "every pair of component sizes 0..70 bytes (with valid signatures of every size obtained by recovering the matching public key), every key, data, digest and representation combination, every altered bit of each representation, every raw component value class, and every length of raw input", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); }); cv = new Curve;
    mc::assume("OpenSSL's curve arithmetic and big numbers are correct; signature padding to the fixed length is the only freedom of the serialised form");
    OEc key[3]; for (auto &k : key) k.reset(openssl_ec_rand_key(EC_CURVE_NIST_P521)); OEc pub[3]; for (int i = 0; i < 3; i++) pub[i].reset(openssl_ec_key_import(key[i]->pub_data, false));
    std::vector<Bytes> texts = { pat(1, 9), pat(64, 9), pat(64, 10), pat(200, 9) };

    mc::part("matrix", [&] {   // who signed what with which digest, and who is asked
        int k = mc::choose(3, "signer"), t = mc::choose((int)texts.size(), "data"), g = mc::choose(3, "digest"); int path = mc::choose(3, "path");
        Exact d(texts[t]); OSig s(openssl_ec_sign(key[k].get(), d, DG[g])); MC_CHECK(s && s->digest_mode.digest_id == DG[g].digest_id && s->curve.identifier == EC_CURVE_ID_NIST_P521, "sign", "signing failed");
        if (path == 1) { OBuf b(wickr_ecdsa_result_serialize(s.get())); s.reset(wickr_ecdsa_result_create_from_buffer(b.get())); } if (path == 2) { OBuf b(openssl_ecdsa_to_raw(s.get())); s.reset(b ? openssl_ecdsa_from_raw(EC_CURVE_NIST_P521, DG[g], b.get()) : nullptr); } MC_CHECK(s, "convert", "conversion of a genuine signature refused");
        for (int k2 = 0; k2 < 3; k2++) for (size_t t2 = 0; t2 < texts.size(); t2++) for (int g2 = 0; g2 < 3; g2++) { OSig x(wickr_ecdsa_result_copy(s.get())); x->digest_mode = DG[g2]; Exact d2(texts[t2]); bool want = k == k2 && t == (int)t2 && g == g2; mc::step();
            for (const wickr_ec_key_t *p : { pub[k2].get(), key[k2].get() }) MC_CHECK(openssl_ec_verify(x.get(), p, d2) == want, "matrix", "signature by %d over %d with digest %d, asked for %d %zu %d: wrong answer", k, t, g, k2, t2, g2); }
        MC_CHECK(!openssl_ec_sign(pub[k].get(), d, DG[g]) && !openssl_ec_verify(nullptr, pub[k].get(), d) && !openssl_ec_verify(s.get(), nullptr, d) && !openssl_ec_verify(s.get(), pub[k].get(), nullptr), "missing", "missing argument accepted");
        mc::outcome("ok"); mc::state(mc::Hash().u(k).u(t).u(g).u(path).h); });
    mc::part("lengths", [&] { int n = mc::choose(mc::tier(150, 400), "length") + 1, g = mc::choose(3, "digest"); Bytes b = pat(n, 1), c = b; c[n - 1] ^= 1; Exact d(b), e(c), f(b.substr(0, n - 1) + Bytes(n == 1 ? 1 : 0, 'x')); OSig s(openssl_ec_sign(key[0].get(), d, DG[g])); mc::step();
        MC_CHECK(openssl_ec_verify(s.get(), pub[0].get(), d) && !openssl_ec_verify(s.get(), pub[0].get(), e) && !openssl_ec_verify(s.get(), pub[0].get(), f), "length", "data of length %d", n); mc::outcome("ok"); mc::state(mc::Hash().u(n).u(g).h); });
    mc::part("long", [&] { static const std::vector<size_t> ns = [] { std::vector<size_t> v; for (int b = 9; b <= mc::tier(22, 25); b++) for (int o = -1; o <= 1; o++) v.push_back(((size_t)1 << b) + o); v.push_back(100000); v.push_back(3000001); return v; }(); size_t n = mc::pick(ns, "length"); int g = mc::choose(3, "digest"); Bytes b = pat(n, 1); Exact d(b); OSig s(openssl_ec_sign(key[0].get(), d, DG[g])); mc::step(); MC_CHECK(s && openssl_ec_verify(s.get(), pub[0].get(), d), "length", "data of length %zu", n);
        for (size_t i : { (size_t)0, (size_t)255, (size_t)511, (size_t)4096, (size_t)65535, (size_t)65536, n / 3, n / 2, n - 130, n - 1 }) if (i < n) { Bytes c = b; c[i] ^= 1; Exact e(c); mc::step(); MC_CHECK(!openssl_ec_verify(s.get(), pub[0].get(), e), "length", "signature over %zu bytes verifies with byte %zu altered", n, i); }
        for (size_t m : { n - 1, n / 2, n & 0xff, n & 0xffff, n & 0xfffff, (size_t)255, (size_t)4096, (size_t)65536 }) if (m && m < n) { Exact e(b.substr(0, m)); MC_CHECK(!openssl_ec_verify(s.get(), pub[0].get(), e), "length", "signature over %zu bytes verifies for the first %zu", n, m); }
        mc::outcome("ok"); mc::state(mc::Hash().u(n).u(g).h); });
    mc::part("component-sizes", [&] {
        int rl = mc::choose(71, "r-size"), sl = mc::choose(71, "s-size"); Bytes data = texts[1];
        for (int k1 = 0; k1 < 4; k1++) for (int k2 = 0; k2 < 4; k2++) { if ((!rl && k1) || (!sl && k2)) continue; if (!mc::thorough() && rl > 3 && sl > 3 && rl < 63 && sl < 63 && (k1 != k2 || k1 != (rl + sl) % 4)) continue;
            int dg = (k1 + k2 + rl) % 3; Bytes r = rl ? number(k1, rl) : Bytes(1, 0), s = sl ? number(k2, sl) : Bytes(1, 0); Bytes rr = r; Bytes q = key_for(rr, s, dgst(dg, data)); OEc kk;
            if (!q.empty()) { Exact b(q); kk.reset(openssl_ec_key_import(b, false)); MC_CHECK(kk, "import", "recovered key refused"); r = rr; }
            char what[100]; snprintf(what, sizeof what, "r of %d bytes (kind %d), s of %d bytes (kind %d)", rl, k1, sl, k2);
            representations(dersig(r, s), r, s, dg, kk ? kk.get() : pub[0].get(), data, (bool)kk, what); }
        mc::state(mc::Hash().u(rl).u(sl).h); });
    mc::part("out-of-range", [&] {   // values around zero, the order and the field size, on both components of a signature that is otherwise valid
        int which = mc::choose(2, "component"), v = mc::choose(9, "value"); Bytes data = texts[1]; Exact d(data); OSig g(openssl_ec_sign(key[0].get(), d, DG[2])); OBuf raw(openssl_ecdsa_to_raw(g.get())); MC_CHECK(raw, "to-raw-refused", "no raw form"); Bytes c[2] = { str(raw.get()).substr(0, 66), str(raw.get()).substr(66) };
        BIGNUM *x = bn(c[which]); switch (v) { case 0: BN_zero(x); break; case 1: BN_copy(x, cv->n); break; case 2: BN_add(x, x, cv->n); break; case 3: BN_sub(x, cv->n, x); break; case 4: BN_copy(x, cv->n); BN_add_word(x, 1); break; case 5: BN_copy(x, cv->n); BN_sub_word(x, 1); break; case 6: BN_one(x); BN_lshift(x, x, 527); break; case 7: BN_one(x); BN_lshift(x, x, 528); break; case 8: BN_add(x, x, cv->n); BN_lshift(x, x, 16); break; }
        Bytes o = bnbytes(x); BN_free(x); bool want = which == 1 && v == 3;    // (r, n-s) is the other valid signature
        c[which] = o; representations(dersig(c[0], c[1]), c[0], c[1], 2, pub[0].get(), data, want, "out of range");
        Bytes rb[2] = { pad66(c[0]), pad66(c[1]) }; if (!rb[0].empty() && !rb[1].empty()) { Exact b(rb[0] + rb[1]); OSig s(openssl_ecdsa_from_raw(EC_CURVE_NIST_P521, DG[2], b)); MC_CHECK(!s || openssl_ec_verify(s.get(), pub[0].get(), d) == want, "raw-out-of-range", "raw signature with component %d value class %d verifies", which, v); if (s) { OBuf back(openssl_ecdsa_to_raw(s.get())); MC_CHECK(!back || is(back.get(), str(b)), "raw-changes", "raw form changes"); } }
        mc::state(mc::Hash().u(which).u(v).h); });
    mc::part("altered", [&] {    // every bit, cut and extension of each representation; never accepted as another signature
        int rep = mc::choose(3, "representation"), m = mc::choose(1400, "place"); Bytes data = texts[2]; Exact d(data); OSig g(openssl_ec_sign(key[0].get(), d, DG[m % 3])); OBuf raw(openssl_ecdsa_to_raw(g.get())), ser(wickr_ecdsa_result_serialize(g.get())); Bytes der = str(g->sig_data), b = rep == 0 ? der : rep == 1 ? str(raw.get()) : str(ser.get());
        if (m >= 1200) { if (m < 1380) { if (m - 1200 >= (int)b.size()) mc::prune(); b.resize(m - 1200); } else { static const int ex[5] = { 0, 1, 0x30, 0x80, 0xff }; b += Bytes((m - 1380) / 5 + 1, (char)ex[m % 5]); } } else { if (m / 8 >= (int)b.size()) mc::prune(); b[m / 8] ^= 1 << m % 8; }
        mc::step(); Exact e(b); OSig s; if (rep == 0) { if (b.empty()) mc::prune(); s.reset(wickr_ecdsa_result_create(g->curve, g->digest_mode, mk(b))); } else if (rep == 1) s.reset(openssl_ecdsa_from_raw(g->curve, g->digest_mode, e)); else s.reset(wickr_ecdsa_result_create_from_buffer(e));
        if (!s) { mc::outcome("refused"); return; }
        bool v = openssl_ec_verify(s.get(), pub[0].get(), d); MC_CHECK(!v, "altered-accepted", "representation %d altered at %d still verifies", rep, m);
        OBuf r2(openssl_ecdsa_to_raw(s.get())); if (r2) { OSig t(openssl_ecdsa_from_raw(s->curve, s->digest_mode, r2.get())); MC_CHECK(t && !openssl_ec_verify(t.get(), pub[0].get(), d), "altered-becomes-valid", "representation %d altered at %d becomes a valid signature when converted to the raw form", rep, m); }
        mc::outcome("invalid"); mc::state(mc::Hash().u(rep).u(m).h); });
    mc::part("der-forms", [&] {  // other encodings of the same integers must not become the signature again
        int f = mc::choose(9, "form"); Bytes data = texts[2]; Exact d(data); OSig g(openssl_ec_sign(key[0].get(), d, DG[2])); OBuf raw(openssl_ecdsa_to_raw(g.get())); Bytes r = str(raw.get()).substr(0, 66), s = str(raw.get()).substr(66), ir = derint(r), is_ = derint(s), body = ir + is_, x;
        auto tlv = [](int t, const Bytes &l, const Bytes &v) { return Bytes(1, (char)t) + l + v; }; auto val = [](const Bytes &i) { return i.substr(2); };
        switch (f) { case 0: x = tlv(0x30, Bytes("\x82\x00", 2) + Bytes(1, (char)body.size()), body); break; case 1: { Bytes z = tlv(2, derlen(val(ir).size() + 1), Bytes(1, 0) + val(ir)) + is_; x = tlv(0x30, derlen(z.size()), z); break; } case 2: { Bytes z = ir + tlv(2, derlen(val(is_).size() + 1), Bytes(1, 0) + val(is_)); x = tlv(0x30, derlen(z.size()), z); break; }
            case 3: { Bytes z = tlv(2, Bytes("\x81", 1) + Bytes(1, (char)val(ir).size()), val(ir)) + is_; x = tlv(0x30, derlen(z.size()), z); break; } case 4: x = tlv(0x30, Bytes("\x80", 1), body + Bytes(2, 0)); break; case 5: { Bytes z = body + derint(Bytes(1, 5)); x = tlv(0x30, derlen(z.size()), z); break; } case 6: x = tlv(0x31, derlen(body.size()), body); break; case 7: { Bytes z = is_ + ir; x = tlv(0x30, derlen(z.size()), z); break; } case 8: x = Bytes(1, 0) + str(g->sig_data); break; }
        OSig q(wickr_ecdsa_result_create(g->curve, g->digest_mode, mk(x))); mc::step(); MC_CHECK(!openssl_ec_verify(q.get(), pub[0].get(), d), "form-accepted", "encoding form %d verifies", f); OBuf r2(openssl_ecdsa_to_raw(q.get())); MC_CHECK(!r2 || !same(r2.get(), raw.get()), "form-becomes-valid", "encoding form %d, which does not verify, becomes the valid signature when converted to the raw form", f); mc::outcome(r2 ? "other" : "refused"); mc::state(f); });
    mc::part("raw-lengths", [&] { int n = mc::choose(300, "length"); Bytes b = pat(n, 3); Exact e(b); OSig s(openssl_ecdsa_from_raw(EC_CURVE_NIST_P521, DG[2], e)); MC_CHECK((n == 132) == (bool)s, "raw-length", "raw signature of %d bytes %s", n, s ? "accepted" : "refused"); mc::step(); mc::outcome(s ? "ok" : "refused"); mc::state(n); });
    mc::part("header", [&] {   // curve, digest and padding bytes of the serialised form
        int h = mc::choose(256, "byte"), p = mc::choose(256, "padding"); Bytes data = texts[2]; static Bytes der; if (der.empty()) { Exact d(data); OSig g(openssl_ec_sign(key[0].get(), d, DG[2])); der = str(g->sig_data); } Exact d(data);
        Bytes x = Bytes(1, (char)h) + Bytes(1, (char)p) + Bytes(143 - 2 - der.size(), 0) + der; Exact e(x); OSig s(wickr_ecdsa_result_create_from_buffer(e)); mc::step(); bool good = h == DIGEST_ID_SHA512 && p == 143 - 2 - (int)der.size();
        MC_CHECK(!s || openssl_ec_verify(s.get(), pub[0].get(), d) == good, "header-accepted", "first byte %d, padding %d accepted", h, p); if (good) MC_CHECK(s, "genuine-refused", "genuine refused"); if (s) { MC_CHECK((h >> 4) == 0 && wickr_digest_find_with_id(h & 15), "header", "curve or digest %d accepted", h); } mc::outcome(s ? good ? "valid" : "invalid" : "refused"); mc::state(mc::Hash().u(h).u(p).h); });
    return mc::finish();
}
