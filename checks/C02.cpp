#include "obj.hpp"
#include "strm.hpp"
// C02: local, remote and message encryption domains stay separate
static wickr_crypto_engine_t E;
struct Member { std::string name; int acct, sys, node; OCtx c; OChain pub; };     // node: members with the same number are the same device of the same account (one signing identity)
struct Pop { std::vector<Member> m; std::vector<OGen> gens; std::vector<std::vector<OEph>> keys; };
static const char *SYS[] = { "system one", "system two", "system 1" };
static wickr_dev_info_t *dev(int i) { OBuf s(mk(SYS[i])); wickr_buffer_t *x = mk(pat(64, 100 + i)); return wickr_dev_info_derive(&E, x, s.get()); }
enum Form { ORIGINAL, COPIED, RELOADED, IMPORTED, STORAGE, FORMS };
static const char *form_name[] = { "original", "copied", "reloaded", "imported", "storage-imported" };
static wickr_ctx_t *form(const wickr_ctx_t *c, int f, int sys)
{
    Exact pw("secret"); if (f == ORIGINAL || f == COPIED) { OCtx x(wickr_ctx_copy(c)); return f == ORIGINAL ? x.release() : wickr_ctx_copy(x.get()); }
    if (f == RELOADED) { OBuf b(wickr_ctx_serialize(c)); return wickr_ctx_create_from_buffer(E, dev(sys), b.get()); } if (f == IMPORTED) { OBuf b(wickr_ctx_export(c, pw)); return wickr_ctx_import(E, dev(sys), b.get(), pw); }
    OBuf b(wickr_ctx_export_storage_keys(c, pw)); wickr_ctx_t *x = wickr_ctx_copy(c); wickr_storage_keys_destroy(&x->storage_keys); x->storage_keys = wickr_ctx_import_storage_keys(E, b.get(), pw); return x;
}
// accounts: 0 and 2 have the same name but other root keys; every account is on every system, made in a different way
static Pop *populate()
{
    Pop *p = new Pop; static const char *who[] = { "alice", "bob", "alice" }; int node = 0; int systems = 2, accounts = 3, forms = FORMS;
    for (int a = 0; a < accounts; a++)
    {
        OBuf id(mk(who[a])); ODev d0(dev(0)); OEc sk(E.wickr_crypto_engine_ec_rand_key(E.default_curve)); OGen g(a == 1 ? wickr_ctx_gen_new_with_sig_key(E, d0.get(), sk.get(), id.get()) : wickr_ctx_gen_new(E, d0.get(), id.get())); MC_CHECK(g, "population", "account cannot be made");
        auto put = [&](const wickr_ctx_t *c, int sys, const char *how, bool all) { int n = node++; p->keys.emplace_back(); for (int k = 0; k < 1; k++) p->keys.back().emplace_back(wickr_ctx_ephemeral_keypair_gen(c, 10 + n)); for (int f = 0; f < (all ? forms : 1); f++) { Member x; x.name = std::string(who[a]) + std::to_string(a) + "@" + SYS[sys] + "/" + how + "/" + form_name[f]; x.acct = a; x.sys = sys; x.node = n; x.c.reset(form(c, f, sys)); MC_CHECK(x.c, "population", "%s cannot be made", x.name.c_str()); x.pub.reset(pub_chain(E, x.c->id_chain)); p->m.push_back(std::move(x)); } };
        put(g->ctx, 0, "new", true);
        for (int s = 0; s <= systems; s++) { ODev d(dev(s)); OGen r(wickr_ctx_gen_with_root_keys(E, d.get(), g->root_keys, id.get())); MC_CHECK(r, "population", "root keys refused"); put(r->ctx, s, "root-keys", s == 1); }
        OBuf rec(wickr_ctx_gen_result_make_recovery(g.get())); for (int s = 0; s < systems; s++) { ODev d(dev(s)); OGen r(wickr_ctx_gen_with_recovery(E, d.get(), rec.get(), g->recovery_key, id.get())); MC_CHECK(r, "population", "recovery refused"); put(r->ctx, s, "recovered", false); }
        OBuf pass(mk("phrase")); OBuf ek(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), pass.get())); { ODev d(dev(1)); OGen r(wickr_ctx_gen_with_passphrase(E, d.get(), ek.get(), pass.get(), rec.get(), id.get())); MC_CHECK(r, "population", "passphrase refused"); put(r->ctx, 1, "passphrase", false); }
        p->gens.push_back(std::move(g));
    }
    return p;
}
static Pop &pop() { static std::map<void *, Pop *> c; Pop *&p = c[(void *)E.wickr_crypto_engine_cipher_encrypt]; if (!p) p = populate(); return *p; }
static const std::vector<Bytes> &texts() { static std::vector<Bytes> t = { "x", pat(32, 3), pat(4096, 4) }; return t; }
// ---- storage: every (operation, context) against every (operation, context)
static void storage()
{
    Pop &p = pop(); int i = mc::choose((int)p.m.size(), "encrypting context"), op = mc::choose(2, "encryption"), ti = mc::choose(mc::tier(2, 3), "text"); const Bytes &t = texts()[ti]; Exact pt(t); Member &a = p.m[i];
    OCipher r(op ? wickr_ctx_cipher_remote(a.c.get(), pt) : wickr_ctx_cipher_local(a.c.get(), pt)); MC_CHECK(r, "encrypt", "%s cannot encrypt for %s storage", a.name.c_str(), op ? "remote" : "local"); MC_CHECK(r->cipher.is_authenticated, "authenticated", "%s storage of %s is not authenticated", op ? "remote" : "local", a.name.c_str());
    OBuf ser(wickr_cipher_result_serialize(r.get())); OCipher r2(wickr_cipher_result_from_buffer(ser.get())); MC_CHECK(r2, "serialise", "stored form unreadable");
    for (size_t j = 0; j < p.m.size(); j++) for (int op2 = 0; op2 < 2; op2++)
    {
        Member &b = p.m[j]; mc::step(); mc::state(mc::Hash().u(i).u(op).u(j).u(op2).u(ti).h); OBuf o(op2 ? wickr_ctx_decipher_remote(b.c.get(), r2.get()) : wickr_ctx_decipher_local(b.c.get(), r2.get()));
        bool should = op == op2 && a.acct == b.acct && (op == 1 || a.sys == b.sys); MC_CHECK(!o || is(o.get(), t), "wrong-plaintext", "opens as something else"); MC_CHECK((bool)o == should, should ? "refused" : "crosses", "%s data of %s %s as %s data of %s", op ? "remote" : "local", a.name.c_str(), o ? "opens" : "does not open", op2 ? "remote" : "local", b.name.c_str());
        mc::outcome(should ? (op ? "remote-opens" : "local-opens") : "refused");
    }
}
// ---- messages: every pair of sender and addressed device, every reader; and what messages contain against the storage operations
static void messages()
{
    Pop &p = pop(); int i = mc::choose((int)p.m.size(), "sender"), j = mc::choose((int)p.m.size(), "addressee"), v = mc::choose(3, "version"); Member &a = p.m[i], &b = p.m[j]; a.c->pkt_enc_version = (uint8_t)(4 - v); OEph &key = p.keys[b.node][0];
    ONode n(wickr_node_create(wickr_buffer_copy(b.c->dev_info->msg_proto_id), wickr_identity_chain_copy(b.pub.get()), wickr_ephemeral_keypair_copy(key.get()))); MC_CHECK(wickr_node_verify_signature_chain(n.get(), &E), "node", "%s is not addressable with its own key", b.name.c_str());
    Recips rs({ n.get() }); OPayload pl(mk_payload("body of the message", "tag")); OEnc e(wickr_ctx_encode_packet(a.c.get(), pl.get(), rs.arr.get())); a.c->pkt_enc_version = 4; MC_CHECK(e, "encode", "%s cannot write to %s", a.name.c_str(), b.name.c_str()); Bytes bytes = packet_bytes(e.get()); std::vector<OCipher> parts;
    for (size_t k = 0; k < p.m.size(); k++)
    {
        Member &r = p.m[k]; mc::step(); mc::state(mc::Hash().u(i).u(j).u(k).u(v).h); Exact x(bytes); OCtxPacket cp(wickr_ctx_parse_packet(r.c.get(), x, a.pub.get())); MC_CHECK(cp && cp->parse_result, "parse", "%s cannot parse", r.name.c_str()); bool to_me = cp->parse_result->err == E_SUCCESS && cp->parse_result->key_exchange; bool mine = same(r.c->id_chain->node->identifier, b.c->id_chain->node->identifier);
        MC_CHECK(to_me == mine, "addressee", "message to %s is %saddressed to %s", b.name.c_str(), to_me ? "" : "not ", r.name.c_str());
        if (to_me) { OEc ek(wickr_ec_key_copy(key->ec_key)); ODecode d(wickr_ctx_decode_packet(r.c.get(), cp.get(), ek.get())); bool ok = d && d->err == E_SUCCESS; MC_CHECK(ok && same_payload(d->decrypted_payload, pl.get()), "message", "%s cannot read the message from %s to %s", r.name.c_str(), a.name.c_str(), b.name.c_str()); mc::outcome("message-read"); if (parts.empty()) { parts.emplace_back(wickr_cipher_result_copy(cp->parse_result->enc_payload)); parts.emplace_back(wickr_cipher_result_copy(cp->parse_result->key_exchange->exchange_ciphertext)); } }
        else mc::outcome("message-refused");
    }
    // the header, too, is a ciphertext somebody might hand to the storage operations
    { OBuf c(wickr_buffer_copy(e->packet->content)); for (size_t off = 0; off < 8 && off < c->length; off++) { Exact rest(str(c.get()).substr(off)); wickr_cipher_result_t *h = wickr_cipher_result_from_buffer(rest); if (h) parts.emplace_back(h); } }
    MC_CHECK(parts.size() >= 2, "parts", "no ciphertexts found in the message");
    for (auto &c : parts) for (size_t k = 0; k < p.m.size(); k++) for (int op = 0; op < 2; op++) { OBuf o(op ? wickr_ctx_decipher_remote(p.m[k].c.get(), c.get()) : wickr_ctx_decipher_local(p.m[k].c.get(), c.get())); mc::step(); MC_CHECK(!o, "crosses", "a part of a message from %s to %s opens as %s data of %s", a.name.c_str(), b.name.c_str(), op ? "remote" : "local", p.m[k].name.c_str()); mc::outcome("message-not-storage"); }
}
// ---- stored data in the place of a message's payload or key
static void stored_as_message()
{
    Pop &p = pop(); int i = mc::choose((int)p.m.size(), "storing context"), op = mc::choose(2), where = mc::choose(2, "part"), what = mc::choose(3, "content"); Member &a = p.m[i]; int j = 0; Member &b = p.m[j]; OEph &key = p.keys[a.node][0];
    ONode n(wickr_node_create(wickr_buffer_copy(a.c->dev_info->msg_proto_id), wickr_identity_chain_copy(a.pub.get()), wickr_ephemeral_keypair_copy(key.get()))); wickr_node_verify_signature_chain(n.get(), &E); Recips rs({ n.get() }); OPayload pl(mk_payload("body of the message", "tag")); OEnc e(wickr_ctx_encode_packet(b.c.get(), pl.get(), rs.arr.get())); Exact x(packet_bytes(e.get()));
    OCtxPacket cp(wickr_ctx_parse_packet(a.c.get(), x, b.pub.get())); MC_CHECK(cp && cp->parse_result->err == E_SUCCESS, "parse", "refused");
    OPayload other(mk_payload("stored", "tag")); Bytes content = what == 0 ? take(wickr_payload_serialize(other.get())) : what == 1 ? take(wickr_cipher_key_serialize(e->packet_key)) : Bytes("x"); Exact pt(content); wickr_cipher_result_t *r = op ? wickr_ctx_cipher_remote(a.c.get(), pt) : wickr_ctx_cipher_local(a.c.get(), pt);
    wickr_cipher_result_t **slot = where ? &cp->parse_result->enc_payload : &cp->parse_result->key_exchange->exchange_ciphertext; wickr_cipher_result_destroy(slot); *slot = r; OEc ek(wickr_ec_key_copy(key->ec_key)); ODecode d(wickr_ctx_decode_packet(a.c.get(), cp.get(), ek.get())); mc::step(); mc::state(mc::Hash().u(i).u(op).u(where).u(what).h);
    MC_CHECK(!d || d->err != E_SUCCESS, "crosses", "%s data of %s is read as the %s of a message", op ? "remote" : "local", a.name.c_str(), where ? "payload" : "key"); MC_CHECK(!d || (!d->decrypted_payload && !d->payload_key), "crosses", "failed decode hands out data"); mc::outcome("storage-not-message");
}
// ---- the account's own secrets are never the ones of another domain
static void secrets()
{
    Pop &p = pop(); int i = mc::choose((int)p.m.size()), j = mc::choose((int)p.m.size()); Member &a = p.m[i], &b = p.m[j]; mc::step(); mc::state(mc::Hash().u(i).u(j).h); CB la = a.c->storage_keys->local->key_data, ra = a.c->storage_keys->remote->key_data, lb = b.c->storage_keys->local->key_data, rb = b.c->storage_keys->remote->key_data;
    MC_CHECK(same(la, lb) == (a.acct == b.acct && a.sys == b.sys), "local", "local keys of %s and %s", a.name.c_str(), b.name.c_str()); MC_CHECK(same(ra, rb) == (a.acct == b.acct), "remote", "remote keys of %s and %s", a.name.c_str(), b.name.c_str()); MC_CHECK(!same(la, rb) && !same(ra, lb), "domains", "local key of %s is the remote key of %s", a.name.c_str(), b.name.c_str());
    for (auto &g : p.gens) for (CB k : { g->recovery_key->key_data, g->root_keys->node_storage_root->key_data }) MC_CHECK(!same(k, la) && !same(k, ra), "domains", "a storage key of %s is a recovery or root key", a.name.c_str());
    for (CB k : { la, ra }) { MC_CHECK(!same(k, a.c->packet_header_key->key_data) && !same(k, b.c->packet_header_key->key_data), "domains", "packet header key is a storage key"); }
    mc::outcome(same(la, lb) ? "shares-local" : same(ra, rb) ? "shares-remote" : "separate");
}
// ---- stored data that carry no authentication are never opened, whatever cipher the storage keys are for
static void unauthenticated()
{
    Pop &p = pop(); int i = mc::choose((int)p.m.size(), "context"), op = mc::choose(2), how = mc::choose(3, "ciphertext"), bit = mc::choose(2, "altered"); OCtx c(wickr_ctx_copy(p.m[i].c.get())); Exact pt("stored by this device"); OCipher g(op ? wickr_ctx_cipher_remote(c.get(), pt) : wickr_ctx_cipher_local(c.get(), pt)); MC_CHECK(g, "encrypt", "refused");
    wickr_cipher_key_t *&k = op ? c->storage_keys->remote : c->storage_keys->local; OCipher dn; OKey plainkey = downgraded(k); if (how) { wickr_cipher_key_destroy(&k); k = plainkey.release(); }
    if (how == 2) { Exact t("stored by this device"); OCipher x(E.wickr_crypto_engine_cipher_encrypt(t, nullptr, k, nullptr)); MC_CHECK(x, "encrypt", "refused"); dn = std::move(x); } else dn = downgraded(g.get());
    if (bit) dn->cipher_text->bytes[0] ^= 1; OBuf o(op ? wickr_ctx_decipher_remote(c.get(), dn.get()) : wickr_ctx_decipher_local(c.get(), dn.get())); mc::step(); mc::state(mc::Hash().u(i).u(op).u(how).u(bit).h); MC_CHECK(!o, "unauthenticated", "%s data without authentication are opened by %s (%d)", op ? "remote" : "local", p.m[i].name.c_str(), how); mc::outcome("unauthenticated-refused");
}
int main(int c, char **v)
{
    mc::init("C02", "model_checking", "every pair of encrypting operation and context with every decrypting operation and context over a population of three accounts on three systems, each context in every form (new, root keys, recovered, by passphrase; original, copied, reloaded, imported); every part of every message against every storage operation, and stored data in the place of a message's parts", c, v);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); }); mc::assume("the passphrase function is replaced by a fast stand-in");
    for (int real = 0; real < 2; real++)
    {
        E = real ? real_engine() : toy_engine(); pop(); auto nm = [&](const char *s) { return std::string(s) + (real ? "-real" : ""); }; mc::PartOpts o;
        o.require = { "remote-opens", "local-opens", "refused" }; mc::part(nm("storage").c_str(), storage, o); o.require = { "shares-local", "shares-remote", "separate" }; mc::part(nm("secrets").c_str(), secrets, o); o.require = { "storage-not-message" }; mc::part(nm("stored-as-message").c_str(), stored_as_message, o); o.require = { "unauthenticated-refused" }; if (real) mc::part("unauthenticated", unauthenticated, o);
        o.require = { "message-read", "message-refused", "message-not-storage" }; if (!real || mc::thorough()) mc::part(nm("messages").c_str(), messages, o);
    }
    return mc::finish();
}
