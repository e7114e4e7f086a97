// I02: whatever the library generates is fresh, well-formed and vouched for by exactly its parent
#include "msg.hpp"
static wickr_crypto_engine_t BASE, E;
static const char *SYS[] = { "system one", "system two" };
struct Acct { OGen g; OChain pub; int line, sys, vis; };       // line: whose account it is
struct Sig { Bytes by; OSig s; OBuf over; std::string what; };
struct Gen {
    std::vector<Acct> a; std::vector<Sig> sigs; std::map<Bytes, std::pair<std::string, OEc>> auth; std::map<Bytes, std::string> seen; std::map<std::string, Bytes> shared; std::set<std::pair<Bytes, Bytes>> nonces; std::string h, dup; size_t encs = 0;
    // a value that has to be new; or, with a group, the value of that group
    void fresh(const char *kind, const Bytes &v, size_t len, const std::string &group = "")
    {
        MC_CHECK(!len || v.size() == len, "length", "%s has %zu bytes:%s", kind, v.size(), h.c_str()); MC_CHECK(v.find_first_not_of(v.empty() ? '\0' : v[0]) != Bytes::npos, "constant", "%s is constant:%s", kind, h.c_str());
        std::string tag = std::string(kind) + (group.empty() ? "" : " of " + group); auto it = seen.find(v);
        if (!group.empty()) { auto s = shared.find(tag); if (s != shared.end()) { MC_CHECK(s->second == v, "not-shared", "%s is not what it was:%s", tag.c_str(), h.c_str()); return; } shared[tag] = v; }
        MC_CHECK(it == seen.end(), "repeated", "%s equals an earlier %s:%s", tag.c_str(), it->second.c_str(), h.c_str()); seen[v] = tag;
    }
    void pair(const char *kind, const wickr_ec_key_t *k, const std::string &group = "")
    {
        MC_CHECK(k && k->pri_data && k->pub_data, "shape", "%s is incomplete:%s", kind, h.c_str()); std::string tag = std::string(kind) + group; bool known = !group.empty() && shared.count(std::string(kind) + " of " + group);
        fresh(kind, str(k->pri_data), 0, group); fresh((std::string("public part of ") + kind).c_str(), str(k->pub_data), 0, group); if (known) return;
        static const Bytes D = "data signed to try the key"; Exact d(D); OSig s(E.wickr_crypto_engine_ec_sign(k, d, DIGEST_SHA_512)); MC_CHECK(s && E.wickr_crypto_engine_ec_verify(s.get(), k, d), "pair", "the two parts of %s do not belong together:%s", kind, h.c_str());
        OEc pub(E.wickr_crypto_engine_ec_key_import(k->pub_data, false)); MC_CHECK(pub && !pub->pri_data && E.wickr_crypto_engine_ec_verify(s.get(), pub.get(), d), "pair", "the public part of %s does not import:%s", kind, h.c_str());
    }
    void authority(const std::string &name, const wickr_ec_key_t *k) { Bytes p = str(k->pub_data); if (auth.count(p)) return; OEc c(wickr_ec_key_copy(k)); for (auto &s : sigs) one(s, p, name, c.get()); auth.emplace(p, std::make_pair(name, std::move(c))); }
    void one(const Sig &s, const Bytes &p, const std::string &name, const wickr_ec_key_t *k) { bool ok = E.wickr_crypto_engine_ec_verify(s.s.get(), k, s.over.get()); MC_CHECK(ok == (s.by == p), ok ? "vouched-by-other" : "not-vouched", "%s %s under %s:%s", s.what.c_str(), ok ? "verifies" : "does not verify", name.c_str(), h.c_str()); }
    void vouched(const std::string &what, const wickr_ecdsa_result_t *s, const wickr_ec_key_t *by, CB over) { MC_CHECK(s, "not-vouched", "%s carries no signature:%s", what.c_str(), h.c_str()); Sig x; x.by = str(by->pub_data); x.s.reset(wickr_ecdsa_result_copy(s)); x.over.reset(wickr_buffer_copy(over)); x.what = what; MC_CHECK(auth.count(x.by), "harness", "unknown signer"); for (auto &a : auth) one(x, a.first, a.second.first, a.second.second.get()); sigs.push_back(std::move(x)); }
    void ckey(const char *kind, const wickr_cipher_key_t *k, const std::string &group = "") { MC_CHECK(k, "shape", "%s is missing:%s", kind, h.c_str()); MC_CHECK(k->cipher.is_authenticated && k->cipher.cipher_id == CIPHER_ID_AES256_GCM, "shape", "%s is for another cipher:%s", kind, h.c_str()); fresh(kind, str(k->key_data), k->cipher.key_len, group); }
    void device(const wickr_dev_info_t *d, int sys, const std::string &group = "") { MC_CHECK(d, "refused", "device information refused:%s", h.c_str()); fresh("device salt", str(d->dev_salt), 64, group); fresh("message identifier", str(d->msg_proto_id), 32, group); fresh("server identifier", str(d->srv_comm_id), 32, group); fresh("system salt", str(d->system_salt), 32, SYS[sys]); }
    void account(OGen g, int line, int sys, const Bytes &id, const std::string &rec = "")
    {
        MC_CHECK(g && g->ctx && g->root_keys, "refused", "the account is refused:%s", h.c_str()); static int visc; std::string L = "line " + std::to_string(line); const wickr_ctx_t *c = g->ctx; int vis = (int)a.size(); (void)visc;
        MC_CHECK(is(c->id_chain->root->identifier, id) && c->id_chain->root->type == IDENTITY_TYPE_ROOT && c->id_chain->node->type == IDENTITY_TYPE_NODE && !c->id_chain->root->signature, "shape", "the identities are mislabelled:%s", h.c_str());
        pair("root signing key", c->id_chain->root->sig_key, L); MC_CHECK(same(g->root_keys->node_signature_root->pri_data, c->id_chain->root->sig_key->pri_data), "shape", "root keys and context differ:%s", h.c_str()); authority("root of " + L, c->id_chain->root->sig_key);
        node(c->id_chain->node, c->id_chain->root->sig_key, ""); ckey("root of local storage", g->root_keys->node_storage_root, L); ckey("remote storage key", g->root_keys->remote_storage_root, L); MC_CHECK(same_key(c->storage_keys->remote, g->root_keys->remote_storage_root), "shape", "remote storage key differs from the root keys:%s", h.c_str());
        ckey("local storage key", c->storage_keys->local, L + " on " + SYS[sys]); ckey("recovery key", g->recovery_key, rec.empty() ? "" : rec); ckey("header key", c->packet_header_key);
        OChain v(wickr_identity_chain_copy(c->id_chain)); v->status = IDENTITY_CHAIN_STATUS_UNKNOWN; MC_CHECK(wickr_identity_chain_validate(v.get(), &E), "not-vouched", "the account's chain does not verify:%s", h.c_str());
        OChain p(pub_chain(E, c->id_chain)); MC_CHECK(p && wickr_identity_chain_validate(p.get(), &E), "not-vouched", "the published chain does not verify:%s", h.c_str()); a.push_back(Acct{ std::move(g), std::move(p), line, sys, vis });
    }
    void node(const wickr_identity_t *n, const wickr_ec_key_t *root, const Bytes &given) { MC_CHECK(n && n->type == IDENTITY_TYPE_NODE, "refused", "device identity refused or mislabelled:%s", h.c_str()); if (given.empty()) fresh("device identifier", str(n->identifier), IDENTIFIER_LEN); else MC_CHECK(is(n->identifier, given), "shape", "device identifier is not the one given:%s", h.c_str()); pair("device signing key", n->sig_key); authority("a device", n->sig_key); vouched("a device identity", n->signature, root, n->sig_key->pub_data); }
    void eph(OEph e, uint64_t id, const wickr_identity_t *owner) { MC_CHECK(e, "refused", "one-time key refused:%s", h.c_str()); MC_CHECK(e->identifier == id, "shape", "one-time key %lu instead of %lu:%s", (unsigned long)e->identifier, (unsigned long)id, h.c_str()); pair("one-time key", e->ec_key); vouched("a one-time key", e->signature, owner->sig_key, e->ec_key->pub_data); for (auto &x : a) { bool ok = wickr_ephemeral_keypair_verify_owner(e.get(), &E, x.g->ctx->id_chain->node); MC_CHECK(ok == same(x.g->ctx->id_chain->node->sig_key->pub_data, owner->sig_key->pub_data), ok ? "vouched-by-other" : "not-vouched", "ownership of a one-time key:%s", h.c_str()); } }
    void watch() { spy.encrypted = [this](const wickr_cipher_key_t *k, const wickr_cipher_result_t *r, const wickr_buffer_t *) { encs++; if (r->iv->length != k->cipher.iv_len) dup = "has a nonce of another length"; if (!nonces.insert({ str(k->key_data), str(r->iv) }).second) dup = "repeats key and nonce of an earlier one"; }; }
    uint64_t fp() { mc::Hash x; for (auto &s : seen) x.s(s.second); for (auto &y : a) x.u(y.line).u(y.sys); return x.u(sigs.size()).u(encs).h; }
};
static int LINES;
static ODev dev(int sys) { OBuf s(mk(SYS[sys])); return ODev(wickr_dev_info_create_new(&E, s.get())); }
static void step(Gen &w, int i)
{
    static const char *ON[] = { "new account", "new account with a key", "account from root keys", "account from recovery", "account from passphrase", "device identity", "one-time key", "device information", "keys", "message", "export", "storage", "local keys" }; int op = mc::choose(13, "op"); mc::step(); w.h += std::string(" ") + ON[op]; Bytes U = "user " + std::to_string(i); OBuf u(mk(U));
    auto who = [&]() -> Acct & { int k = w.a.size() > 1 ? mc::choose((int)w.a.size(), "account") : 0; w.h += "(" + std::to_string(k) + ")"; return w.a[k]; };
    auto put = [&](OGen g, const ODev &d, int line, int sys, const Bytes &id, const std::string &rec) { MC_CHECK(g, "refused", "refused:%s", w.h.c_str()); MC_CHECK(same(g->ctx->dev_info->msg_proto_id, d->msg_proto_id) && same(g->ctx->dev_info->dev_salt, d->dev_salt) && same(g->ctx->dev_info->system_salt, d->system_salt), "shape", "the account is for another device:%s", w.h.c_str()); w.account(std::move(g), line, sys, id, rec); };
    switch (op) {
    case 0: { int s = mc::choose(2, "system"); ODev d(dev(s)); w.device(d.get(), s); OGen g(wickr_ctx_gen_new(E, d.get(), u.get())); put(std::move(g), d, LINES++, s, U, ""); break; }
    case 1: { int s = mc::choose(2, "system"); ODev d(dev(s)); w.device(d.get(), s); OEc k(E.wickr_crypto_engine_ec_rand_key(E.default_curve)); Bytes kp = str(k->pri_data); OEc kpub(E.wickr_crypto_engine_ec_key_import(k->pub_data, false)); OGen none(wickr_ctx_gen_new_with_sig_key(E, d.get(), kpub.get(), u.get())), none2(wickr_ctx_gen_new_with_sig_key(E, d.get(), nullptr, u.get())); MC_CHECK(kpub && !none && !none2, "no-authority", "an account made with %s signing key:%s", none ? "a public" : "no", w.h.c_str()); OGen g(wickr_ctx_gen_new_with_sig_key(E, d.get(), k.get(), u.get())); MC_CHECK(g && is(g->root_keys->node_signature_root->pri_data, kp), "shape", "the given key is not used:%s", w.h.c_str()); put(std::move(g), d, LINES++, s, U, ""); break; }
    case 2: { Acct &x = who(); int s = mc::choose(2, "system"); ODev d(dev(s)); w.device(d.get(), s); Bytes id = str(x.g->ctx->id_chain->root->identifier); OBuf v(mk(id)); OGen g(wickr_ctx_gen_with_root_keys(E, d.get(), x.g->root_keys, v.get())); put(std::move(g), d, x.line, s, id, ""); break; }
    case 3: case 4: { Acct &x = who(); int s = mc::choose(2, "system"); ODev d(dev(s)); w.device(d.get(), s); Bytes id = str(x.g->ctx->id_chain->root->identifier), rk = str(x.g->recovery_key->key_data); OBuf v(mk(id)), rec(wickr_ctx_gen_result_make_recovery(x.g.get())); static const Bytes P = "pass"; OBuf p(mk(P)); int line = x.line; OGen g;
        if (op == 3) g.reset(wickr_ctx_gen_with_recovery(E, d.get(), rec.get(), x.g->recovery_key, v.get())); else { OBuf k(wickr_ctx_gen_export_recovery_key_passphrase(x.g.get(), p.get())); MC_CHECK(k, "refused", "recovery key:%s", w.h.c_str()); w.fresh("exported recovery key", str(k.get()), 0); g.reset(wickr_ctx_gen_with_passphrase(E, d.get(), k.get(), p.get(), rec.get(), v.get())); }
        MC_CHECK(g && is(g->recovery_key->key_data, rk), "not-shared", "the recovery key changes:%s", w.h.c_str()); std::string grp; for (auto &s2 : w.shared) if (s2.second == rk) grp = s2.first.substr(s2.first.find(" of ") + 4); if (grp.empty()) { grp = "recovery " + std::to_string(w.seen.size()); w.shared["recovery key of " + grp] = rk; } put(std::move(g), d, line, s, id, grp); break; }
    case 5: { Acct &x = who(); int k = mc::choose(7, "parent"); const wickr_identity_chain_t *c = x.g->ctx->id_chain; static const Bytes ID = "the identifier given"; OBuf id(mk(ID)); OId p; bool ok = k < 2;
        if (k < 2) p.reset(wickr_identity_copy(c->root)); if (k == 2) p.reset(wickr_identity_copy(c->node)); if (k == 3) p.reset(wickr_identity_copy(x.pub->root)); if (k == 4) { p.reset(wickr_identity_copy(c->root)); p->type = IDENTITY_TYPE_NODE; } if (k == 5) p.reset(wickr_identity_copy(x.pub->node)); if (k == 6) { p.reset(wickr_identity_copy(x.pub->node)); p->type = IDENTITY_TYPE_ROOT; }
        OId n(wickr_node_identity_gen(&E, p.get(), k ? id.get() : nullptr)); if (ok) w.node(n.get(), c->root->sig_key, k ? ID : ""); else MC_CHECK(!n, "no-authority", "a device identity generated from %s:%s", k == 2 ? "a device identity" : k == 3 ? "a published root" : k == 4 ? "an identity that is no root" : "a published device", w.h.c_str()); mc::outcome(ok ? "device" : "refused"); if (!ok) { OId none(wickr_node_identity_gen(&E, nullptr, id.get())); MC_CHECK(!none, "no-authority", "a device identity without a parent"); } break; }
    case 6: { Acct &x = who(); int k = mc::choose(5, "signer"); static const uint64_t IDS[] = { 7, UINT64_MAX, 0, (uint64_t)1 << 32 }; uint64_t id = IDS[mc::choose(4, "identifier")]; const wickr_identity_chain_t *c = x.g->ctx->id_chain; OEph e; if (k == 0) { e.reset(wickr_ctx_ephemeral_keypair_gen(x.g->ctx, id)); w.eph(std::move(e), id, c->node); } if (k == 1) { e.reset(wickr_ephemeral_keypair_generate_identity(&E, id, c->node)); w.eph(std::move(e), id, c->node); } if (k == 2) { e.reset(wickr_ephemeral_keypair_generate_identity(&E, id, x.pub->node)); MC_CHECK(!e, "no-authority", "a one-time key from a published identity:%s", w.h.c_str()); }
        if (k == 3) { OCtx cc(wickr_ctx_copy(x.g->ctx)); e.reset(wickr_ctx_ephemeral_keypair_gen(cc.get(), id)); w.eph(std::move(e), id, c->node); } if (k == 4) { e.reset(wickr_ephemeral_keypair_generate_identity(&E, id, nullptr)); MC_CHECK(!e, "no-authority", "a one-time key from nobody:%s", w.h.c_str()); } mc::outcome(k == 2 || k == 4 ? "refused" : "one-time key"); break; }
    case 7: { int s = mc::choose(2, "system"), k = mc::choose(3, "how"); ODev d(dev(s)); w.device(d.get(), s); OBuf sys(mk(SYS[s])), o(mk(SYS[1 - s])); wickr_buffer_t *salt = wickr_buffer_copy(d->dev_salt); ODev d2(k == 0 ? wickr_dev_info_derive(&E, salt, sys.get()) : k == 1 ? wickr_dev_info_derive(&E, salt, o.get()) : wickr_dev_info_copy(d.get())); if (k == 2) wickr_buffer_destroy(&salt); MC_CHECK(d2, "refused", "device information:%s", w.h.c_str());
        if (k != 1) MC_CHECK(same(d2->msg_proto_id, d->msg_proto_id) && same(d2->srv_comm_id, d->srv_comm_id) && same(d2->system_salt, d->system_salt) && same(d2->dev_salt, d->dev_salt), "not-shared", "the same device is described differently:%s", w.h.c_str()); else { w.fresh("message identifier", str(d2->msg_proto_id), 32); w.fresh("server identifier", str(d2->srv_comm_id), 32); w.fresh("system salt", str(d2->system_salt), 32, SYS[1 - s]); } break; }
    case 8: { int k = mc::choose(8, "what"); w.h += std::to_string(k); if (k == 0) { ORoot r(wickr_root_keys_generate(&E)); MC_CHECK(r, "refused", "root keys"); w.pair("root signing key", r->node_signature_root); w.ckey("root of local storage", r->node_storage_root); w.ckey("remote storage key", r->remote_storage_root); }
        if (k == 1 || k == 2) { wickr_cipher_t c = k == 1 ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; OKey x(E.wickr_crypto_engine_cipher_key_random(c)); MC_CHECK(x && x->cipher.cipher_id == c.cipher_id, "shape", "cipher key"); w.fresh("cipher key", str(x->key_data), 32); } if (k == 3) { OEc x(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); w.pair("key pair", x.get()); }
        if (k == 4) { OSKey x(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3)); MC_CHECK(x && x->packets_per_evolution == 3, "shape", "stream key"); w.fresh("stream cipher key", str(x->cipher_key->key_data), 32); w.fresh("stream evolution key", str(x->evolution_key), 32); }
        if (k == 5) { wickr_transport_root_key_t *x = wickr_transport_root_key_create_random(&E, CIPHER_AES256_GCM, 3, 5); MC_CHECK(x && x->packets_per_evo_send == 3 && x->packets_per_evo_recv == 5, "shape", "channel root key"); Bytes s = str(x->secret); Bytes salt = "salt"; Exact sl(salt); Bytes i1 = "first", i2 = "second"; Exact x1(i1), x2(i2); OSKey k1(wickr_transport_root_key_to_stream_key(x, &E, sl, x1, STREAM_DIRECTION_ENCODE)), k2(wickr_transport_root_key_to_stream_key(x, &E, sl, x2, STREAM_DIRECTION_DECODE)); wickr_transport_root_key_destroy(&x); w.fresh("channel secret", s, 32); MC_CHECK(k1 && k2 && k1->packets_per_evolution == 3 && k2->packets_per_evolution == 5, "shape", "channel stream keys"); for (auto *q : { k1.get(), k2.get() }) { w.fresh("stream cipher key", str(q->cipher_key->key_data), 32); w.fresh("stream evolution key", str(q->evolution_key), 32); } }
        if (k == 6) { for (size_t n : { 16, 32, 33, 64, 200 }) { OBuf b(E.wickr_crypto_engine_crypto_random(n)); w.fresh("random bytes", str(b.get()), n); } } if (k == 7) { wickr_ecdh_cipher_ctx_t *x = wickr_ecdh_cipher_ctx_create(E, EC_CURVE_NIST_P521, CIPHER_AES256_GCM); MC_CHECK(x, "refused", "agreement context"); OEc c(wickr_ec_key_copy(x->local_key)); wickr_ecdh_cipher_ctx_destroy(&x); w.pair("agreement key", c.get()); } break; }
    case 9: { Acct &x = who(); Acct &y = who(); uint8_t ver = (uint8_t)(2 + mc::choose(3, "version")); OEph e(wickr_ctx_ephemeral_keypair_gen(y.g->ctx, 3)); OEc ek(wickr_ec_key_copy(e->ec_key)); ONode n(wickr_node_create(wickr_buffer_copy(y.g->ctx->dev_info->msg_proto_id), wickr_identity_chain_copy(y.pub.get()), e.release())); OPayload p(mk_payload("the same body", "the same tag")); x.g->ctx->pkt_enc_version = ver; int twice = 1 + mc::choose(2, "times");
        for (int t = 0; t < twice; t++) { Recips r({ n.get() }); OEnc m(wickr_ctx_encode_packet(x.g->ctx, p.get(), r.arr.get())); MC_CHECK(m, "refused", "message:%s", w.h.c_str()); w.ckey("message key", m->packet_key); Bytes pk = packet_bytes(m.get()); w.fresh("message", pk, 0); Exact b(pk); OCtxPacket q(wickr_ctx_parse_packet(y.g->ctx, b, x.pub.get())); MC_CHECK(q && q->parse_result && q->parse_result->err == E_SUCCESS, "refused", "what it sends is refused:%s", w.h.c_str()); w.fresh("message exchange key", str(q->parse_result->key_exchange_set->sender_pub->pub_data), 0); } break; }
    case 10: { Acct &x = who(); int k = mc::choose(4, "what"); static const Bytes P = "pass"; OBuf p(mk(P)); for (int t = 0; t < 2; t++) { OBuf b(k == 0 ? wickr_ctx_export(x.g->ctx, p.get()) : k == 1 ? wickr_ctx_export_storage_keys(x.g->ctx, p.get()) : k == 2 ? wickr_ctx_gen_export_recovery_key_passphrase(x.g.get(), p.get()) : wickr_ctx_gen_result_make_recovery(x.g.get())); MC_CHECK(b, "refused", "export:%s", w.h.c_str()); w.fresh("export", str(b.get()), 0); } break; }
    case 11: { Acct &x = who(); int k = mc::choose(2, "remote"); static const Bytes D = "stored data"; Exact d(D); for (int t = 0; t < 2; t++) { OCipher c(k ? wickr_ctx_cipher_remote(x.g->ctx, d) : wickr_ctx_cipher_local(x.g->ctx, d)); MC_CHECK(c, "refused", "storage:%s", w.h.c_str()); OBuf b(wickr_cipher_result_serialize(c.get())); w.fresh("stored data", str(b.get()), 0); } break; }
    case 12: { Acct &x = who(); int s = mc::choose(2, "system"); ODev d(dev(s)); w.device(d.get(), s); OStor k(wickr_root_keys_localize(x.g->root_keys, &E, d.get())); MC_CHECK(k, "refused", "local keys:%s", w.h.c_str()); std::string L = "line " + std::to_string(x.line); w.ckey("local storage key", k->local, L + " on " + SYS[s]); w.ckey("remote storage key", k->remote, L); ORoot r1(wickr_root_keys_copy(x.g->root_keys)), r2(wickr_root_keys_copy(x.g->root_keys)); r1->remote_storage_root->key_data->bytes[5] ^= 1; r2->node_storage_root->key_data->bytes[31] ^= 1; OStor k1(wickr_root_keys_localize(r1.get(), &E, d.get())), k2(wickr_root_keys_localize(r2.get(), &E, d.get())); MC_CHECK(k1 && k2 && same_key(k1->local, k->local) && !same_key(k1->remote, k->remote) && !same_key(k2->local, k->local) && same_key(k2->remote, k->remote), "wrong-root", "local and remote storage keys do not follow from their own roots:%s", w.h.c_str()); break; }
    }
    MC_CHECK(w.dup.empty(), "nonce", "an encryption %s:%s", w.dup.c_str(), w.h.c_str()); mc::outcome(ON[op]); mc::state(w.fp());
}
static void histories(const wickr_crypto_engine_t &base, int depth, bool merge) { BASE = base; E = spy_engine(BASE); LINES = 0; Gen w; w.watch(); { ODev d(dev(0)); w.device(d.get(), 0); static const Bytes U = "the first user"; OBuf u(mk(U)); OGen g(wickr_ctx_gen_new(E, d.get(), u.get())); MC_CHECK(g, "refused", "the first account"); w.account(std::move(g), LINES++, 0, U); } for (int i = 0; i < depth; i++) { step(w, i); if (merge && i + 1 < depth && mc::seen(mc::Hash().u(w.fp()).u(depth - i).h)) mc::prune(); } spy = Spy(); }
// one account for a long time: nothing comes back, however much was generated before
static void long_run(const wickr_crypto_engine_t &base, int n)
{
    BASE = base; E = spy_engine(BASE); LINES = 0; Gen w; w.watch(); static const Bytes U = "the first user", P = "pass", D = "stored data"; ODev d(dev(0)); OBuf u(mk(U)), p(mk(P)); OGen g(wickr_ctx_gen_new(E, d.get(), u.get())); MC_CHECK(g, "refused", "the account"); wickr_ctx_t *c = g->ctx; OChain pub(pub_chain(E, c->id_chain)); Exact stored(D); OPayload pl(mk_payload("the same body", "the same tag"));
    OEph e(wickr_ctx_ephemeral_keypair_gen(c, 3)); ONode to(wickr_node_create(wickr_buffer_copy(c->dev_info->msg_proto_id), wickr_identity_chain_copy(pub.get()), e.release())); Recips rc({ to.get() });
    for (int i = 0; i < n; i++)
    {
        w.h = " round " + std::to_string(i); mc::step();
        { OEph k(wickr_ctx_ephemeral_keypair_gen(c, (uint64_t)i)); MC_CHECK(k && k->identifier == (uint64_t)i, "refused", "one-time key"); w.fresh("one-time key", str(k->ec_key->pri_data), 0); MC_CHECK(wickr_ephemeral_keypair_verify_owner(k.get(), &BASE, c->id_chain->node), "not-vouched", "one-time key:%s", w.h.c_str()); }
        { OKey k(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); w.fresh("cipher key", str(k->key_data), 32); OBuf r(E.wickr_crypto_engine_crypto_random(32)); w.fresh("random bytes", str(r.get()), 32); }
        { OCipher x(i & 1 ? wickr_ctx_cipher_remote(c, stored) : wickr_ctx_cipher_local(c, stored)); MC_CHECK(x, "refused", "storage:%s", w.h.c_str()); w.fresh("nonce", str(x->iv), 0); }
        if (i % 2 == 0) { c->pkt_enc_version = (uint8_t)(2 + i / 2 % 3); OEnc m(wickr_ctx_encode_packet(c, pl.get(), rc.arr.get())); MC_CHECK(m, "refused", "message:%s", w.h.c_str()); w.fresh("message key", str(m->packet_key->key_data), 32); w.fresh("message", packet_bytes(m.get()), 0); }
        if (i % 4 == 1) { OBuf b(wickr_ctx_export(c, p.get())); MC_CHECK(b, "refused", "export:%s", w.h.c_str()); w.fresh("export", str(b.get()), 0); }
        if (i % 8 == 2) { OId x(wickr_node_identity_gen(&E, c->id_chain->root, nullptr)); MC_CHECK(x, "refused", "device:%s", w.h.c_str()); w.fresh("device identifier", str(x->identifier), 0); w.fresh("device key", str(x->sig_key->pri_data), 0); OSKey k(wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 3)); w.fresh("stream key", str(k->cipher_key->key_data), 32); w.fresh("evolution key", str(k->evolution_key), 32); ODev x2(dev(0)); w.fresh("device salt", str(x2->dev_salt), 0); }
        MC_CHECK(w.dup.empty(), "nonce", "an encryption %s:%s", w.dup.c_str(), w.h.c_str()); w.sigs.clear();
    }
    mc::outcome("long run"); mc::state(mc::Hash().s("long").u(n).h);
}
int main(int argc, char **argv)
{
    mc::init("I02", "model_checking", "every history up to the depth of 13 kinds of generating operations (accounts from scratch, from root keys, from recovery data; device identities and one-time keys from every kind of parent; device information; keys of every kind; messages; exports; storage) on the real objects, with a register of everything generated so far and of every signature and signer", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); spy = Spy(); });
    mc::assume("the random source returns distinct values (the deterministic generator used here does)"); mc::assume("the passphrase KDFs of absent submodules are stood in for by lib/kdfshim.c");
    mc::PartOpts o; o.require = { "new account", "device", "refused", "message", "export", "storage", "account from passphrase" };
    mc::part("histories", [] { histories(toy_engine(), mc::tier(3, 4), mc::thorough()); }, o);
    mc::part("histories-real", [] { histories(real_engine(), 2, false); }, o);
    mc::PartOpts l; l.require = { "long run" };
    mc::part("long-run", [] { long_run(toy_engine(), mc::tier(20000, 70000)); }, l); mc::part("long-run-real", [] { long_run(real_engine(), mc::tier(300, 6000)); }, l);
    return mc::finish();
}
