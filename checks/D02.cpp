#include "mut.hpp"
#include "obj.hpp"
// D02: every parser of the library, over all short strings and all alterations of genuine encodings
static wickr_crypto_engine_t E; static wickr_crypto_engine_t REAL, TOY;
struct Fixed {                                              // what some parsers need beside the bytes
    ODev dev; OGen gen; OChain alice, bob, palice, pbob; OBuf pass; OKey rec;
    explicit Fixed(const wickr_crypto_engine_t &e) { OBuf s(mk("a system")), u(mk("user")); dev.reset(wickr_dev_info_create_new(&e, s.get())); gen.reset(wickr_ctx_gen_new(e, wickr_dev_info_copy(dev.get()), u.release())); alice.reset(mk_chain(e, "alice", "a1")); bob.reset(mk_chain(e, "bob", "b1")); palice.reset(pub_chain(e, alice.get())); pbob.reset(pub_chain(e, bob.get())); pass.reset(mk("a passphrase")); }
};
static std::string last; static std::map<int, std::unique_ptr<Fixed>> fixed; static bool is_toy() { return E.wickr_crypto_engine_cipher_encrypt == TOY.wickr_crypto_engine_cipher_encrypt; }
static Fixed &F() { auto &p = fixed[is_toy()]; if (!p) p.reset(new Fixed(is_toy() ? TOY : REAL)); return *p; }
struct Parser { std::string name; std::function<bool(const wickr_buffer_t *)> run; const Type *type = nullptr; std::function<std::vector<Bytes>()> genuine; };
static void judged(const Type &t, void *p, const std::function<void *(CB)> &again, bool reser = true)
{
    std::string txt = t.text(p, t.pub_ser);
    if (t.ser && reser) { MB s = t.ser(E, p); MC_CHECK(s, t.name, "an accepted %s cannot be serialised: %s from %s", t.name, txt.c_str(), last.c_str()); Exact x(str(s)); wickr_buffer_destroy(&s); void *q = again(x); MC_CHECK(q, t.name, "an accepted %s serialises to something that is refused: %s", t.name, txt.c_str()); OBuf s2(t.ser(E, q)); MC_CHECK(is(s2.get(), str(x)), t.name, "an accepted %s is not stable when serialised and read again: %s from %s", t.name, txt.c_str(), last.c_str()); t.destroy(q); }
    if (t.copy) { void *c = t.copy(p); MC_CHECK(c, t.name, "an accepted %s cannot be copied: %s", t.name, txt.c_str()); MC_CHECK(t.text(c, t.pub_ser) == txt, t.name, "copy of an accepted %s differs", t.name); t.destroy(c); }
    t.destroy(p);
}
static const Type &T(const char *n)
{ for (auto &t : types()) if (!strcmp(t.name, n)) return t; abort(); }
static std::vector<Bytes> variants(const Type &t, bool full);
static std::vector<Parser> &parsers()
{
    static std::vector<Parser> v; if (!v.empty()) return v;
    for (auto &t : types()) if (t.ser && std::string(t.name) != "ctx") { Parser p; p.name = t.name; p.type = &t; const Type *tp = &t; p.run = [tp](CB b) { void *o = tp->parse(E, b); if (!o) return false; const Type *jp = tp; if (!strcmp(tp->name, "identity_chain_private")) { auto *c = (wickr_identity_chain_t *)o; if (!c->root->sig_key->pri_data || !c->node->sig_key->pri_data) jp = &T("identity_chain"); } judged(*jp, o, [tp](CB x) { return tp->parse(E, x); }); return true; }; p.genuine = [tp] { return variants(*tp, false); }; v.push_back(p); }
    auto add = [&](const char *n, std::function<bool(CB)> f, std::function<std::vector<Bytes>()> g) { Parser p; p.name = n; p.run = f; p.genuine = g; v.push_back(p); };
    typedef std::vector<Bytes> V;
    add("base32", [](CB b) { OBuf o(base32_decode((MB)b)); if (!o) return false; OBuf e(base32_encode(o.get())); MC_CHECK(e, "base32", "decoded text cannot be encoded"); return true; }, [] { V o; for (int n : { 1, 2, 3, 4, 5, 16 }) { Exact x(pat(n)); OBuf e(base32_encode(x)); o.push_back(str(e.get())); } return o; });
    add("hex", [](CB b) { if (b->length == 0) return false; OBuf o(getDataFromHexString(b)); if (!o) return false; OBuf h(getHexStringFromData(o.get())); MC_CHECK(h, "hex", "decoded text cannot be encoded"); return true; }, [] { V o; for (int n : { 1, 2, 16 }) o.push_back(hex(pat(n), 100)); return o; });
    for (bool pri : { false, true }) add(pri ? "ec_key_private" : "ec_key_public", [pri](CB b) { OEc k(E.wickr_crypto_engine_ec_key_import(b, pri)); if (!k) return false; OEc c(wickr_ec_key_copy(k.get())); MC_CHECK(c && dump(c.get()) == dump(k.get()), "ec_key", "copy of an accepted key differs"); if (pri) { Exact d("data"); OSig s(E.wickr_crypto_engine_ec_sign(k.get(), d, DIGEST_SHA_512)); if (s) (void)E.wickr_crypto_engine_ec_verify(s.get(), k.get(), d); } return true; },
        [pri] { OEc k(E.wickr_crypto_engine_ec_rand_key(E.default_curve)); return V{ str(pri ? k->pri_data : k->pub_data) }; });
    add("ecdsa_raw", [](CB b) { OSig s(E.wickr_crypto_engine_ecdsa_from_raw(EC_CURVE_NIST_P521, DIGEST_SHA_512, b)); if (!s) return false; OSig c(wickr_ecdsa_result_copy(s.get())); MC_CHECK(c, "ecdsa_raw", "cannot be copied"); OEc k(E.wickr_crypto_engine_ec_rand_key(E.default_curve)); Exact d("data"); MC_CHECK(!E.wickr_crypto_engine_ec_verify(s.get(), k.get(), d), "ecdsa_raw", "verifies under an unrelated key"); OBuf r(E.wickr_crypto_engine_ecdsa_to_raw(s.get())); return true; },
        [] { if (is_toy()) return V{ pat(132, 1), Bytes(132, 0) }; OEc k(E.wickr_crypto_engine_ec_rand_key(E.default_curve)); Exact d("data"); OSig s(E.wickr_crypto_engine_ec_sign(k.get(), d, DIGEST_SHA_512)); OBuf r(E.wickr_crypto_engine_ecdsa_to_raw(s.get())); return V{ str(r.get()) }; });
    add("kdf_meta_size", [](CB b) { uint8_t n = wickr_kdf_meta_size_with_buffer(b); MC_CHECK(n <= b->length || !n || true, "kdf_meta_size", "more than there is"); OKdfMeta m(wickr_kdf_meta_create_with_buffer(b)); return n != 0; }, [] { return variants(T("kdf_meta"), false); });
    add("transport_meta", [](CB b) { wickr_transport_packet_meta_t m; memset(&m, 0, sizeof m); int n = wickr_transport_packet_meta_initialize_buffer(&m, b); if (n < 0) return false; MC_CHECK(n <= (int)b->length, "transport_meta", "uses %d of %zu bytes", n, b->length); OBuf s(wickr_transport_packet_meta_serialize(&m)); MC_CHECK(s, "transport_meta", "accepted header cannot be serialised"); return true; }, [] { return variants(T("transport_packet"), false); });
    add("context", [](CB b) { auto go = [](CB x) { wickr_dev_info_t *di = wickr_dev_info_copy(F().dev.get()); wickr_ctx_t *c = wickr_ctx_create_from_buffer(E, di, x); if (!c) wickr_dev_info_destroy(&di); return (void *)c; }; void *c = go(b); if (!c) return false; judged(T("ctx"), c, go); return true; }, [] { OBuf s(wickr_ctx_serialize(F().gen->ctx)); return V{ str(s.get()) }; });
    add("context_import", [](CB b) { wickr_dev_info_t *di = wickr_dev_info_copy(F().dev.get()); OCtx c(wickr_ctx_import(E, di, b, F().pass.get())); if (!c) { wickr_dev_info_destroy(&di); return false; } return true; }, [] { OBuf s(wickr_ctx_export(F().gen->ctx, F().pass.get())); return V{ str(s.get()) }; });
    add("storage_keys_import", [](CB b) { OStor c(wickr_ctx_import_storage_keys(E, b, F().pass.get())); return (bool)c; }, [] { OBuf s(wickr_ctx_export_storage_keys(F().gen->ctx, F().pass.get())); return V{ str(s.get()) }; });
    add("recovery_key_import", [](CB b) { OKey c(wickr_ctx_gen_import_recovery_key_passphrase(E, b, F().pass.get())); return (bool)c; }, [] { OBuf s(wickr_ctx_gen_export_recovery_key_passphrase(F().gen.get(), F().pass.get())); return V{ str(s.get()) }; });
    add("recovery_import", [](CB b) { ORoot c(wickr_ctx_gen_import_recovery(E, b, F().gen->recovery_key)); return (bool)c; }, [] { OBuf s(wickr_ctx_gen_result_make_recovery(F().gen.get())); return V{ str(s.get()) }; });
    add("local_data", [](CB b) { Exact x(str(b)); OCipher r(wickr_cipher_result_from_buffer(x)); if (!r) return false; OCipher o(wickr_ctx_cipher_local(F().gen->ctx, x)); OBuf p(wickr_ctx_decipher_local(F().gen->ctx, r.get())), q(wickr_ctx_decipher_remote(F().gen->ctx, r.get())); return p || q; }, [] { Exact x("stored data"); OCipher c(wickr_ctx_cipher_remote(F().gen->ctx, x)); OBuf s(wickr_cipher_result_serialize(c.get())); return V{ str(s.get()) }; });
    add("fingerprint_text", [](CB b) { OFp f(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, wickr_buffer_copy(b))); if (!f) return false; OBuf a(wickr_fingerprint_get_b32(f.get(), FINGERPRINT_OUTPUT_SHORT)), h(wickr_fingerprint_get_hex(f.get(), FINGERPRINT_OUTPUT_LONG)); return a && h; }, [] { return V{ pat(64), pat(63), pat(16) }; });
    return v;
}
// All genuine encodings of a type (a handful of variants each), by enumerating its maker with a private odometer

static std::vector<Bytes> variants(const Type &t, bool full)
{
    std::vector<Bytes> o; Maker m{ E, full }; std::vector<std::pair<int, int>> path; m.pick_from(&path);
    for (int n = 0; n < 24; n++) { m.pos = 0; void *x = t.make(m); if (x) { MB s = t.ser(E, x); if (s) o.push_back(take(s)); t.destroy(x); } while (!path.empty() && path.back().first + 1 == path.back().second) path.pop_back(); if (path.empty()) break; path.back().first++; }
    return o;
}
static void feed(const Parser &p, const Bytes &s, bool must = false)
{
    last = hex(s, 2000); Exact x(s); trk::reset(); trk::on = true; bool ok = p.run(x); trk::on = false; mc::step();
    MC_CHECK(str(x) == s, p.name.c_str(), "parsing changes its input");
    MC_CHECK(trk::live() == 0, p.name.c_str(), "%s leaks on %s (%s): %s", p.name.c_str(), hex(s, 2000).c_str(), ok ? "accepted" : "refused", trk::describe_live().c_str());
    MC_CHECK(ok || !must, p.name.c_str(), "a genuine encoding is refused: %s", hex(s, 300).c_str());
    if (ok) { mc::outcome(p.name.c_str()); mc::state(mc::Hash().s(p.name).s(s).h); }
}
struct Seed { int parser; Bytes s; mut::V m; };
static std::vector<Seed> &corpus(bool every)
{
    static std::map<int, std::vector<Seed>> c; auto &v = c[is_toy() * 2 + every]; if (!v.empty()) return v;
    for (size_t i = 0; i < parsers().size(); i++) { std::set<Bytes> seen; for (auto &s : parsers()[i].genuine()) if (seen.insert(s).second) { Seed x{ (int)i, s, {} }; x.m = s.size() > 3000 ? mut::V{ s } : mut::everything(s, every); v.push_back(x); } }
    return v;
}
static void mutants(bool every, bool cross)
{
    auto &v = corpus(every); auto &s = v[mc::choose((int)v.size(), "genuine encoding")]; int i = mc::choose((int)(s.m.size() + 31) / 32, "alteration block");
    for (size_t k = (size_t)i * 32; k < s.m.size() && k < (size_t)i * 32 + 32; k++) {
        mc::nontrivial(mc::Hash().u(s.parser).s(s.m[k]).h);
        feed(parsers()[s.parser], s.m[k], s.m[k] == s.s); if (cross) for (size_t j = 0; j < parsers().size(); j++) if ((int)j != s.parser) feed(parsers()[j], s.m[k]);
    }
}
static void shorts()
{
    auto &p = parsers()[mc::choose((int)parsers().size(), "parser")]; int a = mc::choose(257, "first byte");
    if (a == 256) { feed(p, ""); for (int v = 0; v < 256; v++) for (int n : { 1, 3, 4, 8, 16, 64, 1000 }) feed(p, Bytes(n, (char)v)); return; }
    int lim = mc::thorough() ? 256 : 0;
    for (int b = 0; b < 256; b++) { Bytes s{ (char)a, (char)b }; feed(p, s); for (int c = 0; c < lim; c++) feed(p, s + (char)c); }
}
// ---- endpoints and messages: bytes from the network in every state -----------------------------------
static int hmacs; static const int HMACS = 400;
static void run_tctx(int skip, const Bytes &in)
{
    wickr_crypto_engine_t se = spy_engine(E); hmacs = 0; spy.before = [](int k) { return !(k == EC_HMAC && ++hmacs > HMACS); };
    trk::reset(); trk::on = true; { Maker m{ se, true }; OTrans t(nullptr); m.fixed = { skip % 2, skip / 2 }; m.use_fixed = true; t.reset(mk_tctx(m)); wickr_transport_status was = wickr_transport_ctx_get_status(t.get());
        hmacs = 0; Exact x(in); wickr_transport_ctx_process_rx_buffer(t.get(), x); wickr_transport_status now = wickr_transport_ctx_get_status(t.get()); { Exact y("afterwards"); wickr_transport_ctx_process_tx_buffer(t.get(), y); } { wickr_transport_ctx_t *c = wickr_transport_ctx_copy(t.get()); MC_CHECK(c, "endpoint", "cannot be copied afterwards"); wickr_transport_ctx_destroy(&c); }
        char b[40]; snprintf(b, sizeof b, "status-%d-to-%d", was, now); mc::outcome(b); mc::step(); }
    trk::on = false; spy.before = nullptr; if (hmacs > HMACS) mc::known_or_fail("unbounded-evolution", "one unauthenticated packet makes a connected endpoint derive more than %d keys (the loop is cut here by a failing primitive): %s", HMACS, hex(in, 60).c_str());
    MC_CHECK(trk::live() == 0, "endpoint", "endpoint in state %d leaks on %s: %s", skip, hex(in, 200).c_str(), trk::describe_live().c_str());
}
static std::vector<Bytes> wire()      // genuine packets: both handshakes and data, as seen by the endpoints of mk_tctx (same randomness)
{
    static std::map<int, std::vector<Bytes>> c; auto &v = c[is_toy()]; if (!v.empty()) return v;
    for (bool pinned : { false, true }) { rng_seed(mc::seed() + 7); OChain a(mk_chain(E, "alice", "a1")), b(mk_chain(E, "bob", "b1")); Chan ch(E, a.get(), b.get(), 3, pinned); if (!ch.connect()) abort(); ch.b.send("hello"); ch.a.send("hi"); for (auto &s : ch.a.out) v.push_back(s); for (auto &s : ch.b.out) v.push_back(s); }
    for (auto &s : variants(T("transport_packet"), false)) if (s.size() < 400) v.push_back(s); return v;
}
static void endpoint()
{
    static std::map<int, std::vector<mut::V>> cache; auto &mv = cache[is_toy()]; if (mv.empty()) for (auto &s : wire()) { auto m = mut::everything(s, false); if (!mc::thorough() && m.size() > 1500) { mut::V q{ s }; mut::flips(s, q); mut::cuts(s, q); m = q; } mv.push_back(m); }
    int st = mc::choose(14, "endpoint state"); auto &m = mv[mc::choose((int)mv.size(), "packet")]; int i = mc::choose((int)(m.size() + 15) / 16, "alteration block");
    for (size_t k = (size_t)i * 16; k < m.size() && k < (size_t)i * 16 + 16; k++) { rng_seed(mc::seed() + 7); if (mc::replaying()) fprintf(stderr, "state %d <- %s\n", st, hex(m[k], 4000).c_str()); run_tctx(st, m[k]); mc::nontrivial(mc::Hash().u(st).s(m[k]).h); }
}
// a peer that signs and encrypts nonsense: the parts of a handshake, correctly authenticated
static void bad_peer()
{
    bool pinned = mc::flip("pinned"); int what = mc::choose(3, "which"); rng_seed(mc::seed() + 7);
    OChain ca(mk_chain(E, "alice", "a1")), cb(mk_chain(E, "bob", "b1")); Chan ch(E, ca.get(), cb.get(), 3, pinned); ch.ini->start(); Bytes p = ch.a.out[0]; const wickr_identity_chain_t *signer = ca.get(); Endpoint *to = &ch.b;
    if (what) { ch.pump(); p = ch.b.out[0]; signer = cb.get(); }
    static std::map<std::string, mut::V> cache; char kk[40]; snprintf(kk, sizeof kk, "%d%d%d", is_toy(), pinned, what); auto &m = cache[kk];
    if (what < 2) {             // the body of the packet, re-signed
        Exact x(p); OTPkt q(wickr_transport_packet_create_from_buffer(x)); MC_CHECK(q, "peer", "genuine handshake refused"); if (m.empty()) m = mut::everything(str(q->body), false, 0); int i = mc::choose((int)(m.size() + 15) / 16, "alteration block");
        for (size_t k = (size_t)i * 16; k < m.size() && k < (size_t)i * 16 + 16; k++) {
            if (m[k].empty()) continue; OTPkt r(wickr_transport_packet_create(q->meta, mk(m[k]))); if (!wickr_transport_packet_sign(r.get(), &E, signer)) continue; OBuf b(wickr_transport_packet_serialize(r.get()));
            rng_seed(mc::seed() + 7); trk::reset(); trk::on = true; { OChain xa(mk_chain(E, "alice", "a1")), xb(mk_chain(E, "bob", "b1")); Chan c2(E, xa.get(), xb.get(), 3, pinned); Endpoint *t = what ? &c2.a : &c2.b; if (what) c2.ini->start(); t->recv(str(b.get())); t->recv(str(b.get())); (void)to; mc::step(); mc::outcome(t->active() ? "active" : t->error() ? "error" : "handshake"); }
            trk::on = false; MC_CHECK(trk::live() == 0, "peer", "leaks on the signed handshake body %s: %s", hex(m[k], 200).c_str(), trk::describe_live().c_str()); mc::nontrivial(mc::Hash().u(what).s(m[k]).h);
        }
        return;
    }
    // what the responder encrypts in its answer, replaced
    if (m.empty()) { Bytes got; wickr_crypto_engine_t e = spy_engine(E); spy.plain = [&](Bytes &s) { got = s; }; rng_seed(mc::seed() + 7); OChain xa(mk_chain(E, "alice", "a1")), xb(mk_chain(E, "bob", "b1")); Chan c2(e, xa.get(), xb.get(), 3, pinned); c2.ini->start(); c2.b.recv(c2.a.out[0]); spy = Spy(); MC_CHECK(got.size(), "peer", "the responder encrypts nothing"); m = mut::everything(got, false, 0); }
    int i = mc::choose((int)(m.size() + 15) / 16, "alteration block");
    for (size_t k = (size_t)i * 16; k < m.size() && k < (size_t)i * 16 + 16; k++) {
        rng_seed(mc::seed() + 7); trk::reset(); trk::on = true; { wickr_crypto_engine_t e = spy_engine(E); OChain xa(mk_chain(E, "alice", "a1")), xb(mk_chain(E, "bob", "b1")); Chan c2(e, xa.get(), xb.get(), 3, pinned); c2.ini->start(); const Bytes *alt = &m[k]; spy.plain = [alt](Bytes &s) { s = *alt; }; c2.b.recv(c2.a.out[0]); spy.plain = nullptr; if (c2.b.out.size()) c2.a.recv(c2.b.out[0]); mc::step(); mc::outcome(c2.a.active() ? "active" : c2.a.error() ? "error" : "handshake"); spy = Spy(); }
        trk::on = false; MC_CHECK(trk::live() == 0, "peer", "leaks on the encrypted handshake content %s: %s", hex(m[k], 200).c_str(), trk::describe_live().c_str()); mc::nontrivial(mc::Hash().u(what).s(m[k]).h);
    }
}
// messages: the whole packet altered; its content altered and re-signed by the sender; each thing the sender encrypts altered
static void message()
{
    int ver = 2 + mc::choose(3, "version"), what = mc::choose(6, "which"); rng_seed(mc::seed() + 7); static std::map<int, std::unique_ptr<World>> wm; auto &w = wm[is_toy()]; if (!w) { w.reset(new World(E)); w->account("A", 1); w->account("B", 2); }
    static std::map<std::string, mut::V> cache; char kk[40]; snprintf(kk, sizeof kk, "%d%d%d", is_toy(), ver, what); auto &m = cache[kk];
    auto encode = [&](const wickr_crypto_engine_t &e) { Recips rs({ w->d[1].nodes[0].get(), w->d[2].nodes[0].get() }); OPayload p(mk_payload("the body", "tag")); OKey k(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); OEc x(E.wickr_crypto_engine_ec_rand_key(E.default_curve)); OCtx c(wickr_ctx_copy(w->d[0].ctx.get())); c->engine = e; c->pkt_enc_version = ver; OEnc r(wickr_ctx_encode_packet(c.get(), p.get(), rs.arr.get())); return packet_bytes(r.get()); };
    auto read = [&](const Bytes &b, const Bytes &why) {
        trk::reset(); trk::on = true; { Exact x(b); for (int mode = 0; mode < 3; mode++) { OCtxPacket p(mode == 0 ? wickr_ctx_parse_packet(w->d[1].ctx.get(), x, w->d[0].pub.get()) : mode == 1 ? wickr_ctx_parse_packet_no_decode(w->d[1].ctx.get(), x, w->d[0].pub.get()) : wickr_ctx_stateless_parse_packet(&E, nullptr, x, w->d[0].pub.get())); if (!p) { mc::outcome("refused"); continue; }
            { OParse c(wickr_parse_result_copy(p->parse_result)); MC_CHECK(c && dump(c.get()) == dump(p->parse_result), "message", "parse result cannot be copied"); if (p->parse_result->key_exchange_set) { OBuf s(wickr_key_exchange_set_serialize(p->parse_result->key_exchange_set)); MC_CHECK(s, "message", "key exchanges of an accepted message cannot be serialised: %s", hex(why, 300).c_str()); } }
            ODecode dd(wickr_ctx_decode_packet(w->d[1].ctx.get(), p.get(), w->d[1].keys[0]->ec_key)); if (dd) { ODecode c(wickr_decode_result_copy(dd.get())); MC_CHECK(c && dump(c.get()) == dump(dd.get()), "message", "decode result cannot be copied"); if (dd->decrypted_payload) { OBuf s(wickr_payload_serialize(dd->decrypted_payload)); MC_CHECK(s, "message", "an accepted payload cannot be serialised: %s from %s", dump(dd.get()).c_str(), hex(why, 300).c_str()); } }
            mc::outcome(p->parse_result->err != E_SUCCESS ? "parse-error" : dd && dd->err == E_SUCCESS ? "decoded" : "not-decoded"); mc::step(); } }
        trk::on = false; MC_CHECK(trk::live() == 0, "message", "leaks on %s (%s): %s", hex(why, 300).c_str(), hex(b, 60).c_str(), trk::describe_live().c_str()); mc::nontrivial(mc::Hash().u(what).u(ver).s(why).h);
    };
    Bytes g; Exact *x = nullptr; (void)x;
    if (what < 2) { rng_seed(mc::seed() + 9); g = encode(E); Exact b(g); OPacket q(wickr_packet_create_from_buffer(b)); MC_CHECK(q, "message", "genuine packet refused"); Bytes content = str(q->content); if (m.empty()) m = mut::everything(what ? content : g, false, 1); int i = mc::choose((int)(m.size() + 31) / 32, "alteration block");
        for (size_t k = (size_t)i * 32; k < m.size() && k < (size_t)i * 32 + 32; k++) { if (!what) { read(m[k], m[k]); continue; } if (m[k].empty()) continue; Exact c(m[k]); wickr_ecdsa_result_t *s = E.wickr_crypto_engine_ec_sign(w->d[0].ctx->id_chain->node->sig_key, c, wickr_digest_matching_curve(E.default_curve)); OPacket p(wickr_packet_create(ver, mk(m[k]), s)); OBuf o(wickr_packet_serialize(p.get())); MC_CHECK(o, "message", "cannot build"); read(str(o.get()), m[k]); }
        return; }
    int idx = what - 2; wickr_crypto_engine_t e = spy_engine(E); int n = 0; Bytes got; spy.plain = [&](Bytes &s) { if (n++ == idx) got = s; }; encode(e); spy = Spy(); if (n <= idx) { mc::outcome("no-such-encryption"); return; }
    if (m.empty()) m = mut::everything(got, false, 1); int i = mc::choose((int)(m.size() + 31) / 32, "alteration block");
    for (size_t k = (size_t)i * 32; k < m.size() && k < (size_t)i * 32 + 32; k++) { e = spy_engine(E); n = 0; spy.plain = [&](Bytes &s) { if (n++ == idx) s = m[k]; }; Bytes b = encode(e); spy = Spy(); if (b.empty()) { mc::outcome("not-encodable"); continue; } read(b, m[k]); }
}
// exports whose encrypted content is nonsense (right passphrase or key, wrong inside)
static void bad_export()
{
    int what = mc::choose(4, "export"); static std::map<int, mut::V> cache; auto &m = cache[is_toy() * 4 + what]; Bytes alt, got; bool sub = false; Fixed &f = F();
    auto make = [&]() -> Bytes { wickr_crypto_engine_t e = spy_engine(E); spy.plain = [&](Bytes &s) { if (sub) s = alt; else got = s; }; MB o = nullptr; OGen g(wickr_ctx_gen_result_copy(f.gen.get())); g->ctx->engine = e; if (what == 0) o = wickr_ctx_export(g->ctx, f.pass.get()); if (what == 1) o = wickr_ctx_export_storage_keys(g->ctx, f.pass.get()); if (what == 2) o = wickr_ctx_gen_export_recovery_key_passphrase(g.get(), f.pass.get()); if (what == 3) o = wickr_ctx_gen_result_make_recovery(g.get()); spy = Spy(); return take(o); };
    if (m.empty()) { make(); m = mut::everything(got, false, 4); } int i = mc::choose((int)(m.size() + 31) / 32, "alteration block"); sub = true; static const char *pn[] = { "context_import", "storage_keys_import", "recovery_key_import", "recovery_import" };
    for (size_t k = (size_t)i * 32; k < m.size() && k < (size_t)i * 32 + 32; k++) { alt = m[k]; Bytes b = make(); if (b.empty()) { mc::outcome("not-encodable"); continue; } mc::nontrivial(mc::Hash().u(what).s(alt).h); for (auto &p : parsers()) if (p.name == pn[what]) feed(p, b); }
}
int main(int c, char **v)
{
    mc::init("D02", "fault_enumeration", "every string up to a length bound, and every single-bit change, substitution, deletion, insertion, truncation, extension and structural protobuf change of genuine encodings, to every parser (cross-fed), to endpoints in every state, and inside correctly signed or encrypted envelopes; under address and undefined-behaviour sanitizers with every allocation tracked", c, v);
    rng_install(); rng_seed(mc::seed()); REAL = real_engine(); TOY = toy_engine(); E = TOY; F(); E = REAL; F(); mc::on_exec([] { rng_seed(mc::seed() + 7); spy = Spy(); });
    mc::assume("the passphrase function is replaced by a fast stand-in with the same interface"); mc::assume("alterations at deeper combination than one are explored only for the classes listed in mut.hpp");
    E = TOY; mc::PartOpts o; for (auto &p : parsers()) if (p.name != "transport_meta") o.require.insert(p.name);
    mc::part("short", shorts); mc::part("altered", [] { mutants(mc::thorough(), mc::thorough()); }, o);
    mc::part("endpoint", endpoint); mc::part("lying-peer", bad_peer); mc::part("message", message); mc::part("export", bad_export);
    E = REAL; mc::part("altered-real", [] { mutants(mc::thorough(), false); }, o); if (mc::thorough()) { mc::part("message-real", message); mc::part("lying-peer-real", bad_peer); }
    return mc::finish();
}
