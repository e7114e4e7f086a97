// M04: a wrapped key opens only in the exact context it was made for
#include "w.hpp"

struct Ctxs {
    wickr_crypto_engine_t e; std::vector<OChain> ch; std::vector<Bytes> dev, psk; std::vector<OEph> eph; std::vector<OEc> xk;
    explicit Ctxs(const wickr_crypto_engine_t &eng) : e(eng)
    {
        // chains 0 and 1: two accounts; chain 2: another device of account 0
        ch.emplace_back(mk_chain(e, "alice", Bytes(32, 'a'))); ch.emplace_back(mk_chain(e, "bob", Bytes(32, 'b')));
        { OBuf id(mk(Bytes(32, 'c'))); ch.emplace_back(wickr_identity_chain_create(wickr_identity_copy(ch[0]->root), wickr_node_identity_gen(&e, ch[0]->root, id.get()))); }
        dev = { Bytes(32, 'd'), Bytes(32, 'e'), Bytes(31, 'd'), Bytes(33, 'd'), Bytes(1, 'd') };
        psk = { "", "secret", "secret2", Bytes(64, 'p'), Bytes(200, 'p'), Bytes("\1", 1) };    // "" stands for none
        for (int i = 0; i < 3; i++) eph.emplace_back(wickr_ephemeral_keypair_generate_identity(&e, 5 + i, ch[1]->node));
        for (int i = 0; i < 2; i++) xk.emplace_back(e.wickr_crypto_engine_ec_rand_key(e.default_curve));
    }
    wickr_node_t *node(int c, int d, int k, bool pub) { wickr_ephemeral_keypair_t *x = wickr_ephemeral_keypair_copy(eph[k].get()); if (pub) wickr_ephemeral_keypair_make_public(x); return wickr_node_create(mk(dev[d]), wickr_identity_chain_copy(ch[c].get()), x); }
};
static std::unique_ptr<Ctxs> toy, real;
static OKex wrap(Ctxs &x, int s, int rc, int d, int k, int xk, int psk, int ver, const Bytes &data, wickr_cipher_t cipher) { ONode n(x.node(rc, d, k, true)); Exact pt(data), ps(x.psk[psk]); return OKex(wickr_key_exchange_create_with_data(&x.e, x.ch[s].get(), n.get(), x.xk[xk].get(), pt, cipher, psk ? (CB)ps : nullptr, (uint8_t)ver)); }
static OBuf unwrap(Ctxs &x, int s, int rc, int d, int k, int xk, int psk, int ver, const wickr_key_exchange_t *ex) { ONode n(x.node(rc, d, k, false)); Exact ps(x.psk[psk]); return OBuf(wickr_key_exchange_derive_data(&x.e, x.ch[s].get(), n.get(), x.xk[xk].get(), ex, psk ? (CB)ps : nullptr, (uint8_t)ver)); }
static int root(int c) { return c == 2 ? 0 : c; }

int main(int argc, char **argv)
{
    mc::init("M04", "model_checking", "every combination of (sender, receiver, device id, one-time key, exchange key, pre-shared secret, version) used to wrap, against every combination used to unwrap; every single-bit change of the wrapped bytes; every data size and version number of a grid", argc, argv);
    rng_install(); rng_seed(mc::seed()); toy.reset(new Ctxs(toy_engine())); real.reset(new Ctxs(real_engine())); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("key derivation is the library's own in every part; the exhaustive product uses an ideal stand-in for the curve and cipher, and the OpenSSL engine for single deviations");
    mc::assume("pre-shared secrets that HMAC itself identifies (differing only in trailing zero bytes, or longer than a block and equal to a digest) are left out; protocol version 2 binds device id, keys and secret only");
    const Bytes data = "0123456789abcdef0123456789abcdef";

    auto verdict = [&](int ver, bool exact, bool v2same, bool samev, const OBuf &got, const Bytes &want, const char *what) {
        mc::step();
        if (exact) { mc::outcome("exact"); MC_CHECK(got && is(got.get(), want), "exact-context-refused", "v%d: unwrapping in the exact context gives %s", ver, got ? "other data" : "nothing"); }
        else if (v2same && ver == 2 && samev) { mc::outcome("v2-unbound"); if (got) MC_CHECK(is(got.get(), want), "other-data", "v2 unwrap yields other data"); }
        else { mc::outcome("inexact"); MC_CHECK(!got, "wrong-context-opens", "%s: opened (%s)", what, hex(str(got.get())).c_str()); } };

    mc::part("product", [&] {
        Ctxs &x = *toy; const bool T = mc::thorough(); int nd = T ? 5 : 4, np = T ? 6 : 4;
        int ver = mc::choose(3, "version") + 2, s = mc::choose(2, "sender"), rc = mc::choose(2, "receiver"), d = mc::choose(T ? 5 : 2, "device"), k = mc::choose(2, "key"), xk = mc::choose(T ? 2 : 1, "exchange"), ps = mc::choose(np, "psk");
        OKex ex = wrap(x, s, rc, d, k, xk, ps, ver, data, CIPHER_AES256_GCM); MC_CHECK(ex, "wrap", "wrapping failed"); mc::state(mc::Hash().u(ver).u(s).u(rc).u(d).u(k).u(xk).u(ps).h);
        MC_CHECK(ex->key_id == x.eph[k]->identifier && same(ex->exchange_id, x.ch[rc]->node->identifier), "label", "wrapped key is labelled for another key or device");
        int v2 = mc::choose(T ? 7 : 4, "unwrap-version"); if (!T) v2 = v2 == 3 ? 5 : v2 + 2;
        for (int s2 = 0; s2 < 3; s2++) for (int r2 = 0; r2 < 3; r2++) for (int d2 = 0; d2 < nd; d2++) for (int k2 = 0; k2 < 3; k2++) for (int x2 = 0; x2 < 2; x2++) for (int p2 = 0; p2 < np; p2++) {
            bool hard = d2 == d && k2 == k && x2 == xk && p2 == ps; bool ids = root(s2) == root(s) && root(r2) == root(rc);
            char what[160]; snprintf(what, sizeof what, "wrapped v%d s%d r%d d%d k%d x%d p%d, unwrapped v%d s%d r%d d%d k%d x%d p%d", ver, s, rc, d, k, xk, ps, v2, s2, r2, d2, k2, x2, p2);
            OBuf got = unwrap(x, s2, r2, d2, k2, x2, p2, v2, ex.get()); verdict(ver, hard && ids && v2 == ver, hard && !ids, v2 == ver, got, data, what); } });
    // one deviation at a time, real cryptography
    mc::part("deviation-real", [&] {
        Ctxs &x = *real; int ver = mc::choose(3, "version") + 2, s = mc::choose(2, "sender"), rc = mc::choose(2, "receiver"), ps = mc::choose(3, "psk"); int c[7] = { s, rc, 0, 0, 0, ps, ver }; const int lim[7] = { 3, 3, 5, 3, 2, 6, 6 };
        OKex ex = wrap(x, s, rc, 0, 0, 0, ps, ver, data, CIPHER_AES256_GCM); MC_CHECK(ex, "wrap", "wrapping failed"); int f = mc::choose(7, "field"); int v = mc::choose(lim[f], "value"); c[f] = v;
        bool hard = c[2] == 0 && c[3] == 0 && c[4] == 0 && c[5] == ps, ids = root(c[0]) == root(s) && root(c[1]) == root(rc); OBuf got = unwrap(x, c[0], c[1], c[2], c[3], c[4], c[5], c[6], ex.get());
        char what[80]; snprintf(what, sizeof what, "v%d, field %d set to %d", ver, f, v); verdict(ver, hard && ids && c[6] == ver, hard && !ids, c[6] == ver, got, data, what); });
    // long secrets and device ids that differ in a single place or in length
    mc::part("near", [&] {
        Ctxs &x = *toy; static const int lens[] = { 1, 2, 31, 32, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 600 }; bool dev = mc::flip("device-id"); int ver = mc::choose(3, "version") + 2, n = lens[mc::choose(dev ? 15 : 15, "length")]; int at = mc::choose(n + 3, "difference");
        Bytes a = pat(n, 9), b = a; for (auto &ch : a) if (!ch) ch = 1; b = a; if (at < n) { b[at] ^= 1 << at % 8; if (!b[at]) b[at] = 0x55; } else if (at == n) b += 'x'; else if (at == n + 1) { b = b.substr(0, n - 1); if (b.empty()) mc::prune(); } else b = a;
        auto node = [&](const Bytes &d, bool pub) { wickr_ephemeral_keypair_t *k = wickr_ephemeral_keypair_copy(x.eph[0].get()); if (pub) wickr_ephemeral_keypair_make_public(k); return wickr_node_create(mk(d), wickr_identity_chain_copy(x.ch[1].get()), k); };
        ONode w(node(dev ? a : x.dev[0], true)), u(node(dev ? b : x.dev[0], false)); Exact pa(dev ? Bytes("secret") : a), pb(dev ? Bytes("secret") : b), pt(data);
        OKex ex(wickr_key_exchange_create_with_data(&x.e, x.ch[0].get(), w.get(), x.xk[0].get(), pt, CIPHER_AES256_GCM, pa, ver)); MC_CHECK(ex, "wrap", "wrapping with a %s of %d bytes failed", dev ? "device id" : "secret", n); OBuf got(wickr_key_exchange_derive_data(&x.e, x.ch[0].get(), u.get(), x.xk[0].get(), ex.get(), pb, ver)); mc::state(mc::Hash().u(dev).u(ver).u(n).u(at).h);
        char what[120]; snprintf(what, sizeof what, "v%d, %s of %d bytes, altered at %d", ver, dev ? "device id" : "secret", n, at); verdict(ver, at == n + 2, false, true, got, data, what); });
    mc::part("versions", [&] { Ctxs &x = *toy; int ver = mc::choose(256, "version"); OKex ex = wrap(x, 0, 1, 0, 0, 0, 0, ver, data, CIPHER_AES256_GCM); bool ok = ver >= 2 && ver <= 4; mc::step(); MC_CHECK((bool)ex == ok, "version", "wrapping at version %d %s", ver, ex ? "succeeds" : "fails"); OKex e4 = wrap(x, 0, 1, 0, 0, 0, 0, 4, data, CIPHER_AES256_GCM); OBuf g = unwrap(x, 0, 1, 0, 0, 0, 0, ver, e4.get()); MC_CHECK((bool)g == (ver == 4), "version", "unwrapping v4 at version %d", ver); });
    mc::part("tamper", [&] {
        Ctxs &x = mc::flip("engine") ? *real : *toy; int ver = mc::choose(3, "version") + 2; OKex ex = wrap(x, 0, 1, 0, 0, 0, 1, ver, data, CIPHER_AES256_GCM); OBuf b(wickr_cipher_result_serialize(ex->exchange_ciphertext)); int byte = mc::choose((int)b->length, "byte");
        for (int bit = 0; bit < 8; bit++) { Bytes t = str(b.get()); t[byte] ^= 1 << bit; Exact tb(t); OCipher c(wickr_cipher_result_from_buffer(tb)); mc::step(); if (!c) { mc::outcome("malformed"); continue; } OKex f(wickr_key_exchange_copy(ex.get())); wickr_cipher_result_destroy(&f->exchange_ciphertext); f->exchange_ciphertext = c.release(); if (!f->exchange_ciphertext->cipher.is_authenticated) { mc::outcome("unauthenticated-cipher"); }
            OBuf g = unwrap(x, 0, 1, 0, 0, 0, 1, ver, f.get()); if (g && f->exchange_ciphertext->cipher.is_authenticated) mc::fail("tampered-opens", "bit %d of byte %d of the wrapped key changed, still opens", bit, byte); mc::outcome("refused"); } });
    // packet keys: both ciphers, every size of data
    mc::part("contents", [&] {
        Ctxs &x = mc::flip("engine") ? *real : *toy; int ver = mc::choose(3, "version") + 2; int kind = mc::choose(3, "kind"); ONode np(x.node(1, 0, 0, true)), n(x.node(1, 0, 0, false)); Exact ps(x.psk[1]); bool usepsk = mc::flip("psk");
        if (kind < 2) { wickr_cipher_t c = kind ? CIPHER_AES256_CTR : CIPHER_AES256_GCM; OKey key(x.e.wickr_crypto_engine_cipher_key_random(c)); OKex ex(wickr_key_exchange_create_with_packet_key(&x.e, x.ch[0].get(), np.get(), x.xk[0].get(), key.get(), usepsk ? (CB)ps : nullptr, ver)); MC_CHECK(ex, "wrap", "packet key of cipher %d not wrapped", c.cipher_id);
            OKey got(wickr_key_exchange_derive_packet_key(&x.e, x.ch[0].get(), n.get(), x.xk[0].get(), ex.get(), usepsk ? (CB)ps : nullptr, ver)); mc::step(); MC_CHECK(got && got->cipher.cipher_id == c.cipher_id && same(got->key_data, key->key_data), "exact-context-refused", "packet key of cipher %d not recovered", c.cipher_id); mc::outcome("packet-key"); }
        else { int len = mc::choose(mc::tier(40, 300), "length") + 1; Bytes dt = pat(len); OKex ex = wrap(x, 0, 1, 0, 0, 0, usepsk, ver, dt, CIPHER_AES256_GCM); OBuf g = unwrap(x, 0, 1, 0, 0, 0, usepsk, ver, ex.get()); mc::step(); MC_CHECK(g && is(g.get(), dt), "exact-context-refused", "%d bytes not recovered", len); mc::outcome("data"); } });
    return mc::finish();
}
