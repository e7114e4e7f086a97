#include "rec.hpp"
#include "obj.hpp"
// D03: nothing meant for publication contains secret key material
static wickr_crypto_engine_t E; static std::set<Bytes> extra;    // secrets known from the objects themselves
static void published(const char *what, const Bytes &s, const std::string &hist)
{
    mc::step(); mc::state(mc::Hash().s(what).s(hist).h); mc::nontrivial(mc::Hash().s(what).s(hist).h);
    for (auto *set : { &rec::all, &extra }) if (const Bytes *k = rec::leaked(s, *set)) mc::fail(what, "%s contains secret bytes (of %s) after: %s", what, hex(*k).c_str(), hist.c_str());
    mc::outcome(what);
}
static void published(const char *what, MB b, const std::string &hist, bool must = true) { MC_CHECK(b || !must, what, "%s cannot be published after: %s", what, hist.c_str()); if (b) published(what, take(b), hist); }
template <class T> static void secrets_of(const T *x) { Dump o; d(o, x); for (auto &s : o.secrets) if (s.size() >= 8) extra.insert(rec::scalar(s)); }
// ---- objects: bounded histories of copies, reloads and conversions, then everything is published
static void objects(int depth)
{
    std::string h; int kind = mc::choose(5, "object"); static const char *kn[] = { "root", "node-identity", "chain", "one-time-key", "node" }; h = kn[kind];
    OChain ch(mk_chain(E, "user", "dev")); secrets_of(ch.get()); OId id(nullptr); OEph ep(nullptr); ONode nd(nullptr); OId owner(wickr_identity_copy(ch->node)), ownroot(wickr_identity_copy(ch->root));
    if (kind < 2) id.reset(wickr_identity_copy(kind ? ch->node : ch->root)); if (kind == 3) ep.reset(wickr_ephemeral_keypair_generate_identity(&E, 7, ch->node)); if (kind == 4) { nd.reset(mk_node(E, ch.get(), Bytes(32, 'd'), 9)); }
    if (ep) secrets_of(ep.get()); if (nd) secrets_of(nd.get());
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(8, "operation"); static const char *on[] = { "stop", "copy", "publish and reload", "private reload", "validate", "rotate", "make public", "take apart" }; if (!op) break; h += std::string(", ") + on[op]; bool done = false;
        switch (op) {
        case 1: if (kind < 2) id.reset(wickr_identity_copy(id.get())); if (kind == 2) ch.reset(wickr_identity_chain_copy(ch.get())); if (kind == 3) ep.reset(wickr_ephemeral_keypair_copy(ep.get())); if (kind == 4) nd.reset(wickr_node_copy(nd.get())); done = true; break;
        case 2: if (kind < 2) { OBuf b(wickr_identity_serialize(id.get())); published("identity", str(b.get()), h); id.reset(wickr_identity_create_from_buffer(b.get(), &E)); } if (kind == 2) { OBuf b(wickr_identity_chain_serialize(ch.get())); published("chain", str(b.get()), h); ch.reset(wickr_identity_chain_create_from_buffer(b.get(), &E)); } if (kind == 3) { OBuf b(wickr_ephemeral_keypair_serialize(ep.get())); published("one-time-key", str(b.get()), h); ep.reset(wickr_ephemeral_keypair_create_from_buffer(b.get(), &E)); } if (kind == 4) { OBuf b(wickr_node_serialize(nd.get())); published("node", str(b.get()), h); nd.reset(wickr_node_create_from_buffer(b.get(), &E)); } done = true; break;
        case 3: if (kind == 2) { OBuf b(wickr_identity_chain_serialize_private(ch.get())); if (b) { MC_CHECK(rec::leaked(str(b.get())) || rec::leaked(str(b.get()), extra), "vacuous", "the recorder does not see the private keys in the private form"); ch.reset(wickr_identity_chain_create_from_buffer(b.get(), &E)); done = true; } } break;
        case 4: if (kind == 2) done = wickr_identity_chain_validate(ch.get(), &E); if (kind == 4) done = wickr_node_verify_signature_chain(nd.get(), &E); if (kind == 3) done = wickr_ephemeral_keypair_verify_owner(ep.get(), &E, owner.get()); break;
        case 5: if (kind == 4) { wickr_ephemeral_keypair_t *k = wickr_ephemeral_keypair_generate_identity(&E, 10 + i, owner.get()); secrets_of(k); bool cp = mc::flip("copy"); done = wickr_node_rotate_keypair(nd.get(), k, cp); if (cp) wickr_ephemeral_keypair_destroy(&k); } break;
        case 6: if (kind == 3) { wickr_ephemeral_keypair_make_public(ep.get()); MC_CHECK(!ep->ec_key->pri_data, "make-public", "private part still present"); done = true; } if (kind == 4 && nd->ephemeral_keypair) { wickr_ephemeral_keypair_make_public(nd->ephemeral_keypair); done = true; }
            if (kind == 2) { int part = mc::choose(2, "part"); h += part ? " (device)" : " (root)"; auto pub = [&](const wickr_identity_t *x) { OBuf b(wickr_identity_serialize(x)); return wickr_identity_create_from_buffer(b.get(), &E); }; ch.reset(wickr_identity_chain_create(part ? wickr_identity_copy(ch->root) : pub(ch->root), part ? pub(ch->node) : wickr_identity_copy(ch->node))); done = true; } break;
        case 7: if (kind == 4) { ch.reset(wickr_identity_chain_copy(nd->id_chain)); nd.reset(); kind = 2; done = true; } else if (kind == 2) { id.reset(wickr_identity_copy(ch->node)); kind = 1; done = true; } break; }
        if (!done) mc::prune(); MC_CHECK(kind < 2 ? (bool)id : kind == 2 ? (bool)ch : kind == 3 ? (bool)ep : (bool)nd, "history", "lost: %s", h.c_str());
    }
    if (kind < 2) published("identity", wickr_identity_serialize(id.get()), h); if (kind == 3) published("one-time-key", wickr_ephemeral_keypair_serialize(ep.get()), h);
    if (kind == 2) { published("chain", wickr_identity_chain_serialize(ch.get()), h); published("identity", wickr_identity_serialize(ch->root), h); published("identity", wickr_identity_serialize(ch->node), h); }
    if (kind == 4) { published("node", wickr_node_serialize(nd.get()), h); published("chain", wickr_identity_chain_serialize(nd->id_chain), h); if (nd->ephemeral_keypair) published("one-time-key", wickr_ephemeral_keypair_serialize(nd->ephemeral_keypair), h); }
    const wickr_identity_t *f = kind < 2 ? id.get() : kind == 2 ? ch->node : nullptr;
    if (f) { for (int sh = 0; sh < 2; sh++) { OFp a(wickr_identity_get_fingerprint(f, E)), b(wickr_identity_get_bilateral_fingerprint(f, ownroot.get(), E)); for (auto *x : { a.get(), b.get() }) if (x) { published("fingerprint", wickr_fingerprint_get_b32(x, sh ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG), h); published("fingerprint", wickr_fingerprint_get_hex(x, sh ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG), h); published("fingerprint", str(x->data), h); } } }
}
// ---- every variant of every object whose serialised form is a public one
static void variants(bool full)
{
    std::vector<const Type *> v; for (auto &t : types()) if (t.ser && (t.pub_ser || std::set<std::string>{ "key_exchange_set", "packet", "transport_packet" }.count(t.name))) v.push_back(&t); const Type &t = *v[mc::choose((int)v.size(), "type")]; Maker m{ E, full };
    void *o = t.make(m); MC_CHECK(o, "make", "%s: cannot be made", t.name); if (t.pub_ser) { Dump d; t.dump(d, o); for (auto &s : d.secrets) if (s.size() >= 8) extra.insert(rec::scalar(s)); } std::string h = std::string(t.name) + " " + t.text(o, true);
    published("variant", t.ser(E, o), h, false); if (t.copy) { void *c = t.copy(o); published("variant", t.ser(E, c), h + ", copied", false); OBuf b(t.ser(E, c)); t.destroy(c); if (b) { void *p = t.parse(E, b.get()); if (p) { published("variant", t.ser(E, p), h + ", reloaded", false); t.destroy(p); } } } mc::outcome(t.name); t.destroy(o);
}
// ---- contexts in every form, and all they send or hand out encrypted
static OCtx reform(OCtx c, int form, OGen &g, std::string &h)
{
    static const char *n[] = { "as made", "copied", "reloaded", "imported", "recovered" }; h += std::string(" ") + n[form]; Exact pass("pass phrase");
    if (form == 1) return OCtx(wickr_ctx_copy(c.get()));
    if (form == 2) { OBuf b(wickr_ctx_serialize(c.get())); wickr_dev_info_t *di = wickr_dev_info_copy(c->dev_info); return OCtx(wickr_ctx_create_from_buffer(E, di, b.get())); }
    if (form == 3) { OBuf b(wickr_ctx_export(c.get(), pass)); published("export", str(b.get()), h); return OCtx(wickr_ctx_import(E, wickr_dev_info_copy(c->dev_info), b.get(), pass)); }
    if (form == 4) { OBuf b(wickr_ctx_gen_result_make_recovery(g.get())); published("recovery", str(b.get()), h); g.reset(wickr_ctx_gen_with_recovery(E, wickr_dev_info_copy(c->dev_info), b.get(), g->recovery_key, wickr_buffer_copy(c->id_chain->root->identifier))); return g ? OCtx(wickr_ctx_copy(g->ctx)) : OCtx(); }
    return c;
}
static void messages(bool deep)
{
    std::string h; OBuf sys(mk("a system")), u(mk("user")); OGen g(wickr_ctx_gen_new(E, wickr_dev_info_create_new(&E, sys.get()), u.release())); secrets_of(g.get()); OCtx c(wickr_ctx_copy(g->ctx));
    int f1 = mc::choose(5, "form"), f2 = deep ? mc::choose(5, "second form") : 0; c = reform(std::move(c), f1, g, h); MC_CHECK(c, "form", "lost:%s", h.c_str()); if (f2) c = reform(std::move(c), f2, g, h); MC_CHECK(c, "form", "lost:%s", h.c_str()); secrets_of(c.get());
    c->pkt_enc_version = 2 + mc::choose(3, "version"); int n = 1 + mc::choose(2, "recipients"), nf = mc::choose(4, "recipient form");
    World w(E); w.account("B", 2); std::vector<ONode> own; std::vector<const wickr_node_t *> v;
    for (int i = 0; i < n; i++) { Dev &x = w.d[i]; secrets_of(x.ctx.get()); for (auto &k : x.keys) secrets_of(k.get()); wickr_node_t *nd = nullptr;
        if (nf == 0) nd = wickr_node_copy(x.nodes[0].get()); else nd = wickr_node_create(wickr_buffer_copy(x.dev_id()), wickr_identity_chain_copy(nf & 1 ? x.ctx->id_chain : x.pub.get()), wickr_ephemeral_keypair_copy(x.keys[0].get())); own.emplace_back(nd); v.push_back(nd); published("node", wickr_node_serialize(nd), h); }
    if (nf == 3) { OEph k(wickr_ctx_ephemeral_keypair_gen(c.get(), 55)); secrets_of(k.get()); wickr_node_t *self = wickr_node_create(wickr_buffer_copy(c->dev_info->msg_proto_id), wickr_identity_chain_copy(c->id_chain), wickr_ephemeral_keypair_copy(k.get())); own.emplace_back(self); v.push_back(self); published("node", wickr_node_serialize(self), h); }
    Recips rs(v); Bytes body = pat(40, 77); extra.insert(body); OPayload p(mk_payload(body, pat(32, 78))); OEnc e(wickr_ctx_encode_packet(c.get(), p.get(), rs.arr.get())); MC_CHECK(e, "encode", "refused:%s", h.c_str()); secrets_of(e->packet_key); h += " v" + std::to_string(c->pkt_enc_version) + " form " + std::to_string(nf) + " x" + std::to_string(n);
    Bytes pkt = packet_bytes(e.get()); published("packet", pkt, h); published("packet", str(e->packet->content), h);
    OChain pub(pub_chain(E, c->id_chain)); Exact b(pkt); OCtxPacket cp(wickr_ctx_parse_packet(w.d[0].ctx.get(), b, pub.get())); MC_CHECK(cp && cp->parse_result->err == E_SUCCESS, "parse", "refused:%s", h.c_str()); published("key-exchanges", wickr_key_exchange_set_serialize(cp->parse_result->key_exchange_set), h);
    ODecode dd(wickr_ctx_decode_packet(w.d[0].ctx.get(), cp.get(), w.d[0].keys[0]->ec_key)); MC_CHECK(dd && dd->err == E_SUCCESS, "decode", "refused:%s", h.c_str());
    extra.insert("another pass phrase"); Exact pass("another pass phrase"); Exact data(body); published("export", wickr_ctx_export(c.get(), pass), h); published("export", wickr_ctx_export_storage_keys(c.get(), pass), h); published("recovery", wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pass), h); published("recovery", wickr_ctx_gen_result_make_recovery(g.get()), h);
    for (int r = 0; r < 2; r++) { OCipher x(r ? wickr_ctx_cipher_remote(c.get(), data) : wickr_ctx_cipher_local(c.get(), data)); published("stored-data", wickr_cipher_result_serialize(x.get()), h); }
    for (CB x : { c->dev_info->msg_proto_id, c->dev_info->srv_comm_id }) published("device-id", str(x), h);
}
// ---- everything that crosses a channel
static void channel()
{
    std::string h; OChain a(mk_chain(E, "alice", "a1")), b(mk_chain(E, "bob", "b1")); secrets_of(a.get()); secrets_of(b.get()); bool pinned = mc::flip("pinned"), full = mc::flip("pinned identities include private parts"), bob = mc::flip("bob starts"); uint32_t ppe = 1 + mc::choose(3, "period"); int form = mc::choose(3, "chain form");
    if (form == 1) { OBuf s(wickr_identity_chain_serialize_private(a.get())); a.reset(wickr_identity_chain_create_from_buffer(s.get(), &E)); } if (form == 2) wickr_identity_chain_validate(a.get(), &E);
    h = std::string(pinned ? "pinned" : "open") + (full ? " full" : "") + (bob ? " bob" : "") + " " + std::to_string(ppe) + " " + std::to_string(form); if (full && !pinned) mc::prune();
    Chan ch(E, a.get(), b.get(), ppe, pinned); if (full) { ch.a.open(E, a.get(), b.get(), ppe); ch.b.open(E, b.get(), a.get(), ppe); } if (bob) ch.swap(); MC_CHECK(ch.connect(), "connect", "%s", h.c_str()); Bytes data = pat(40, 5); extra.insert(data); bool copy = mc::flip("copy");
    for (int i = 0; i < 6; i++) { if (copy && i == 3) { ch.a.t.reset(wickr_transport_ctx_copy(ch.a.t.get())); h += " copied"; } (i % 2 ? ch.a : ch.b).send(data); ch.pump(); }
    MC_CHECK(ch.a.got.size() == 3 && ch.b.got.size() == 3, "deliver", "%s: %zu %zu", h.c_str(), ch.a.got.size(), ch.b.got.size()); for (auto *e : { &ch.a, &ch.b }) { for (size_t i = 0; i < e->out.size(); i++) published(i ? "data-packet" : "handshake", e->out[i], h); for (auto &s : e->asked) published("asked-identity", s, h); }
    OChain who(wickr_identity_chain_copy(wickr_transport_ctx_get_remote_identity_ptr(ch.a.t.get()))); if (who) published("chain", wickr_identity_chain_serialize(who.get()), h);
}
int main(int c, char **v)
{
    mc::init("D03", "model_checking", "all histories of copy, reload, validate, rotate and conversion of publishable objects up to a depth, all forms of contexts, versions and recipients of messages, and all forms of channels; an engine that records every secret it hands out, and every output searched for any eight consecutive bytes of any of them", c, v);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); rec::all.clear(); extra.clear(); });
    mc::assume("secrets: private scalars, every symmetric key made or used, agreed and derived secrets, message plaintexts; eight consecutive bytes count as disclosure"); mc::assume("transformed secrets are outside: only literal bytes are searched for");
    E = rec::engine(toy_engine()); mc::PartOpts o; o.require = { "identity", "chain", "one-time-key", "node", "fingerprint" }; mc::part("objects", [] { objects(mc::tier(5, 7)); }, o);
    mc::part("variants", [] { variants(true); });
    mc::PartOpts o2; o2.require = { "packet", "key-exchanges", "export", "recovery", "stored-data", "device-id", "node" }; mc::part("messages", [] { messages(true); }, o2);
    mc::PartOpts o3; o3.require = { "handshake", "data-packet", "asked-identity" }; mc::part("channel", channel, o3);
    E = rec::engine(real_engine()); mc::part("objects-real", [] { objects(mc::tier(2, 3)); }, o); mc::part("messages-real", [] { messages(mc::thorough()); }, o2); mc::part("channel-real", channel, o3);
    return mc::finish();
}
