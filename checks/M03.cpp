// M03: messages are attributed only to their true sender, and only verified recipients are addressed
#include "msg.hpp"

struct Sender { const char *name; OCtx ctx; OChain pub; Bytes key; };   // something a message may be signed by / attributed to
struct Set { World w; std::vector<Sender> s; Set(const wickr_crypto_engine_t &e) : w(e) {} };
static std::unique_ptr<Set> toy, real;

static wickr_identity_chain_t *chain_of(const wickr_identity_t *root, const wickr_identity_t *node) { return wickr_identity_chain_create(wickr_identity_copy(root), wickr_identity_copy(node)); }
static void add(Set &t, const char *name, wickr_identity_chain_t *c)
{
    World &w = t.w; OBuf sys(mk(name)); wickr_dev_info_t *di = wickr_dev_info_create_new(&w.e, sys.get());
    wickr_storage_keys_t *sk = wickr_storage_keys_create(w.e.wickr_crypto_engine_cipher_key_random(w.e.default_cipher), w.e.wickr_crypto_engine_cipher_key_random(w.e.default_cipher));
    Sender s; s.name = name; s.ctx.reset(wickr_ctx_create(w.e, di, c, sk)); s.pub.reset(pub_chain(w.e, c)); s.key = str(c->node->sig_key->pub_data); if (!s.ctx || !s.pub) { fprintf(stderr, "sender %s\n", name); abort(); } t.s.push_back(std::move(s));
}
static void build(Set &t)
{
    World &w = t.w; w.account("A", 2); w.account("B", 1); w.account("C", 1);
    const wickr_identity_chain_t *a1 = w.d[0].ctx->id_chain, *a2 = w.d[1].ctx->id_chain, *b = w.d[2].ctx->id_chain;
    add(t, "alice-1", chain_of(a1->root, a1->node)); add(t, "alice-2", chain_of(a2->root, a2->node)); add(t, "bob", chain_of(b->root, b->node));
    // the same account and device names with keys of somebody else's
    { OChain c(mk_chain(w.e, str(a1->root->identifier), str(a1->node->identifier))); add(t, "namesake", chain_of(c->root, c->node)); }
    // somebody else's device key presented under alice's root, and alice's device under another root
    { OId n(wickr_identity_copy(b->node)); wickr_buffer_destroy(&n->identifier); n->identifier = wickr_buffer_copy(a1->node->identifier); add(t, "bob-under-alice", chain_of(a1->root, n.get())); }
    add(t, "alice-device-under-bob", chain_of(b->root, a1->node));
    // the account's own key, and a one-time key of the device, in the place of the device key
    { OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(a1->node->identifier), wickr_ec_key_copy(a1->root->sig_key), wickr_identity_sign(a1->root, &w.e, a1->root->sig_key->pub_data))); add(t, "alice-account-key", chain_of(a1->root, n.get())); }
    { const wickr_ec_key_t *k = w.d[0].keys[0]->ec_key; OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(a1->node->identifier), wickr_ec_key_copy(k), wickr_identity_sign(a1->root, &w.e, k->pub_data))); add(t, "alice-one-time-key", chain_of(a1->root, n.get())); }
    // a device key signed by the device, not the root
    { wickr_ec_key_t *k = w.e.wickr_crypto_engine_ec_rand_key(w.e.default_curve); OId n(wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(a1->node->identifier), k, wickr_identity_sign(a1->node, &w.e, k->pub_data))); add(t, "grandchild", chain_of(a1->root, n.get())); }
}
enum { R_GOOD, R_GOOD_CHECKED, R_EPH_SWAPPED, R_EPH_NOSIG, R_EPH_OTHER, R_EPH_CORRUPT, R_EPH_ROOT, R_EPH_LABEL, R_NONE, R_NODE_CORRUPT, R_NODE_OTHER, R_NODE_NOSIG, R_ROOT_SWAPPED, R_NODE_SWAPPED, R_FORCED, R_STALE_EPH, R_STALE_CHAIN, R_STALE_SIG, R_N };
static const char *RN[] = { "good", "good, already verified", "one-time key replaced", "one-time key unsigned", "one-time key signed by another device", "one-time key signature corrupted", "one-time key signed by the root", "signature digest changed", "no one-time key", "device signature corrupted", "device signed by another root", "device unsigned", "root key replaced", "device key replaced", "statuses forced valid over a bad signature", "verified, then one-time key replaced", "verified, then chain replaced by another verified one", "verified, then signature replaced" };
static wickr_node_t *recipient(World &w, int dev, int kind)
{
    Dev &d = w.d[dev]; Dev &o = w.d[(dev + 1) % w.d.size()]; wickr_node_t *n = wickr_node_copy(d.nodes[0].get());
    auto setkey = [&](wickr_ephemeral_keypair_t *k) { wickr_ephemeral_keypair_destroy(&n->ephemeral_keypair); n->ephemeral_keypair = k; };
    switch (kind) {
    case R_GOOD_CHECKED: wickr_node_verify_signature_chain(n, &w.e); break;
    case R_STALE_EPH: wickr_node_verify_signature_chain(n, &w.e); [[fallthrough]];
    case R_EPH_SWAPPED: wickr_ec_key_destroy(&n->ephemeral_keypair->ec_key); n->ephemeral_keypair->ec_key = wickr_ec_key_copy(o.nodes[0]->ephemeral_keypair->ec_key); break;
    case R_EPH_NOSIG: wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); break;
    case R_EPH_OTHER: setkey(wickr_ephemeral_keypair_create(1, wickr_ec_key_copy(d.keys[0]->ec_key), wickr_identity_sign(o.ctx->id_chain->node, &w.e, d.keys[0]->ec_key->pub_data))); break;
    case R_EPH_CORRUPT: n->ephemeral_keypair->signature->sig_data->bytes[10] ^= 2; break;
    case R_EPH_ROOT: setkey(wickr_ephemeral_keypair_create(1, wickr_ec_key_copy(d.keys[0]->ec_key), wickr_identity_sign(d.ctx->id_chain->root, &w.e, d.keys[0]->ec_key->pub_data))); break;
    case R_EPH_LABEL: n->ephemeral_keypair->signature->digest_mode = DIGEST_SHA_256; break;
    case R_NONE: setkey(nullptr); break;
    case R_NODE_CORRUPT: n->id_chain->node->signature->sig_data->bytes[10] ^= 2; break;
    case R_NODE_OTHER: wickr_ecdsa_result_destroy(&n->id_chain->node->signature); n->id_chain->node->signature = wickr_identity_sign(o.ctx->id_chain->node, &w.e, n->id_chain->node->sig_key->pub_data); break;
    case R_NODE_NOSIG: wickr_ecdsa_result_destroy(&n->id_chain->node->signature); break;
    case R_ROOT_SWAPPED: { wickr_ec_key_destroy(&n->id_chain->root->sig_key); n->id_chain->root->sig_key = w.e.wickr_crypto_engine_ec_rand_key(w.e.default_curve); break; }
    case R_NODE_SWAPPED: wickr_ec_key_destroy(&n->id_chain->node->sig_key); n->id_chain->node->sig_key = w.e.wickr_crypto_engine_ec_rand_key(w.e.default_curve); break;
    case R_FORCED: n->id_chain->node->signature->sig_data->bytes[10] ^= 2; wickr_node_verify_signature_chain(n, &w.e); n->status = NODE_STATUS_VALID; n->id_chain->status = IDENTITY_CHAIN_STATUS_VALID; break;
    case R_STALE_CHAIN: { wickr_node_verify_signature_chain(n, &w.e); wickr_identity_chain_t *c = wickr_identity_chain_copy(o.pub.get()); wickr_identity_chain_validate(c, &w.e); wickr_identity_chain_destroy(&n->id_chain); n->id_chain = c; break; }
    case R_STALE_SIG: wickr_node_verify_signature_chain(n, &w.e); wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); n->ephemeral_keypair->signature = wickr_ecdsa_result_copy(d.nodes[1]->ephemeral_keypair->signature); break;
    }
    return n;
}
static OEnc encode(World &w, const std::vector<wickr_node_t *> &v, int ver)
{
    ONodes arr(wickr_node_array_new((uint32_t)v.size())); for (size_t i = 0; i < v.size(); i++) wickr_node_array_set_item(arr.get(), (uint32_t)i, v[i]);
    OCtx c(wickr_ctx_copy(w.d[0].ctx.get())); c->pkt_enc_version = ver; OPayload pl(mk_payload("hello", "tag")); return OEnc(wickr_ctx_encode_packet(c.get(), pl.get(), arr.get()));
}
int main(int argc, char **argv)
{
    mc::init("M03", "model_checking", "every pair of actual and claimed sender over identities that share names, roots or devices, through every parsing entry point; every list of up to the bound of recipients each in one of 18 states; every history of edits and repeated encodings of a recipient up to the depth", argc, argv);
    rng_install(); rng_seed(mc::seed()); toy.reset(new Set(toy_engine())); build(*toy); real.reset(new Set(real_engine())); build(*real);
    mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("the sender chain handed to the parser is verified by the caller, as the interface requires; the check establishes what a verdict on the message itself means");

    mc::part("attribution", [&] {
        Set &t = mc::flip("engine") ? *real : *toy; World &w = t.w; int ver = mc::choose(3, "version") + 2, s = mc::choose((int)t.s.size(), "signer"), c = mc::choose((int)t.s.size(), "claimed"), api = mc::choose(4, "api"), rd = mc::choose(2, "reader") ? 0 : 2;
        OCtx sc(wickr_ctx_copy(t.s[s].ctx.get())); sc->pkt_enc_version = ver; OPayload pl(mk_payload("the body", "tag"));
        Recips rc({ w.d[2].nodes[0].get(), w.d[0].nodes[0].get() }); OEnc r(wickr_ctx_encode_packet(sc.get(), pl.get(), rc.arr.get())); MC_CHECK(r, "encode", "%s cannot encode", t.s[s].name); Bytes pkt = packet_bytes(r.get()); Exact b(pkt);
        Dev &d = w.d[rd]; const wickr_identity_chain_t *cl = t.s[c].pub.get(); mc::step(); mc::state(mc::Hash().u(ver).u(s).u(c).u(api).u(rd).h);
        OCtxPacket p(api == 0 ? wickr_ctx_parse_packet(d.ctx.get(), b, cl) : api == 1 ? wickr_ctx_parse_packet_no_decode(d.ctx.get(), b, cl) : api == 2 ? wickr_ctx_stateless_parse_packet(&w.e, d.ctx->id_chain->node->identifier, b, cl) : wickr_ctx_stateless_parse_packet(&w.e, nullptr, b, cl));
        MC_CHECK(p, "parse", "well-formed packet gave no result"); wickr_parse_result_t *pr = p->parse_result; ODecode dec(wickr_ctx_decode_packet(d.ctx.get(), p.get(), d.keys[0]->ec_key)); bool ok = dec && dec->err == E_SUCCESS;
        bool signer = t.s[s].key == t.s[c].key;
        if (!signer) { mc::outcome("refused");
            MC_CHECK(pr->signature_status == PACKET_SIGNATURE_INVALID && pr->err != E_SUCCESS, "wrong-attribution", "a message signed by %s is attributed to %s (status %d, error %d)", t.s[s].name, t.s[c].name, pr->signature_status, pr->err);
            MC_CHECK(!pr->key_exchange_set && !pr->key_exchange && !pr->enc_payload && !ok && (!dec || (!dec->payload_key && !dec->decrypted_payload)), "partial-on-refusal", "a message signed by %s but claimed by %s was partly decoded", t.s[s].name, t.s[c].name);
        } else if (s == c) { mc::outcome("accepted");
            MC_CHECK(pr->err == E_SUCCESS && pr->signature_status == PACKET_SIGNATURE_VALID, "genuine-refused", "%s: error %d", t.s[s].name, pr->err);
            if (api == 0 || api == 2) MC_CHECK(ok && same_payload(dec->decrypted_payload, pl.get()), "genuine-refused", "%s: decode failed", t.s[s].name); else MC_CHECK(!ok, "decoded-unsearched", "a packet parsed without looking for the reader's entry was decoded");
        } else { mc::outcome("same-device-key"); if (ok && ver > 2) mc::fail("wrong-attribution", "a message by %s decodes as one by %s, whose root identity is another", t.s[s].name, t.s[c].name); }
    });
    // the sender argument missing
    mc::part("no-sender", [&] { Set &t = *toy; World &w = t.w; int s = mc::choose(3, "signer"), api = mc::choose(2, "api"); OPayload pl(mk_payload("the body", "tag")); Recips rc({ w.d[2].nodes[0].get() }); OEnc r(wickr_ctx_encode_packet(t.s[s].ctx.get(), pl.get(), rc.arr.get())); Bytes pkt = packet_bytes(r.get()); Exact b(pkt);
        OCtxPacket p(api ? wickr_ctx_parse_packet(w.d[2].ctx.get(), b, nullptr) : wickr_ctx_stateless_parse_packet(&w.e, nullptr, b, nullptr)); mc::step(); MC_CHECK(!p || (p->parse_result->err != E_SUCCESS && p->parse_result->signature_status != PACKET_SIGNATURE_VALID), "wrong-attribution", "a packet without a claimed sender was accepted"); });

    auto recips = [&](Set &t, int n) {
        World &w = t.w; int ver = mc::choose(3, "version") + 2; static const uint64_t IDS[] = { 1, 0, UINT64_MAX }; int idn = n == 1 ? mc::choose(3, "identifier") : 0; std::vector<ONode> own; std::vector<wickr_node_t *> v; bool bad = false; std::string why;
        for (int i = 0; i < n; i++) { int k = mc::choose(R_N, "state"); own.emplace_back(recipient(w, (i + 1) % 4, k)); v.push_back(own.back().get()); if (idn && own.back()->ephemeral_keypair) own.back()->ephemeral_keypair->identifier = IDS[idn]; if (k > R_GOOD_CHECKED) { bad = true; why += std::string(RN[k]) + " at " + std::to_string(i) + "; "; } }
        OEnc r = encode(w, v, ver); mc::step(); mc::outcome(bad ? "bad" : "good"); mc::state(mc::Hash().s(why).u(n).u(ver).h);
        MC_CHECK(bad == !r, bad ? "unverified-recipient" : "good-recipient-refused", bad ? "a message was encoded for recipients: %s" : "encoding for good recipients failed %s", why.c_str());
        // whatever happened, a second attempt says the same
        OEnc r2 = encode(w, v, ver); MC_CHECK(!r2 == !r, "verdict-changes", "the second attempt to encode for the same recipients differs: %s", why.c_str()); };
    mc::part("recipients", [&] { recips(*toy, mc::choose(mc::tier(2, 3), "count") + 1); });
    mc::part("recipients-3", [&] { int bad = mc::choose(3, "position"); World &w = toy->w; int k = mc::choose(R_N, "state"), ver = mc::choose(3, "version") + 2; std::vector<ONode> own; std::vector<wickr_node_t *> v; for (int i = 0; i < 3; i++) { own.emplace_back(recipient(w, i + 1, i == bad ? k : mc::choose(2, "good"))); v.push_back(own.back().get()); } OEnc r = encode(w, v, ver); mc::step(); MC_CHECK((k > R_GOOD_CHECKED) == !r, "unverified-recipient", "recipient %d: %s, encoded: %d", bad, RN[k], (bool)r); });
    mc::part("recipients-many", [&] {   // one bad recipient at any place of a long list
        World &w = toy->w; static const std::vector<int> ns = mc::thorough() ? std::vector<int>{ 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300 } : std::vector<int>{ 4, 5, 6, 7, 8, 9, 16, 17, 33, 65, 130, 257 }; static const std::vector<int> kinds = { R_EPH_SWAPPED, R_EPH_CORRUPT, R_NODE_SWAPPED, R_NONE };
        int n = mc::pick(ns, "count"), k = mc::pick(kinds, "state"), at = mc::choose(std::min(n, 20) + 4, "position"); at = at < 20 && at < n ? at : at - std::min(n, 20) == 3 ? -1 : n - 1 - (at - std::min(n, 20)); std::vector<ONode> own; std::vector<wickr_node_t *> v; own.reserve(n + 2);
        own.emplace_back(recipient(w, 1, R_GOOD)); own.emplace_back(recipient(w, 2, k)); for (int i = 0; i < n; i++) { if (i == at) { v.push_back(own[1].get()); continue; } own.emplace_back(wickr_node_copy(own[0].get())); v.push_back(own.back().get()); }
        OEnc r = encode(w, v, 4); mc::step(); mc::state(mc::Hash().u(n).u(at).u(k).h); mc::outcome(at < 0 ? "all good" : "one bad"); MC_CHECK((at >= 0) == !r, at < 0 ? "good-recipient-refused" : "unverified-recipient", "%d recipients, number %d: %s, encoded: %d", n, at, RN[k], (bool)r); });
    mc::part("recipients-real", [&] { recips(*real, mc::tier(1, 2)); });
    // a recipient edited between encodings
    mc::part("history", [&] {
        World &w = toy->w; ONode n(recipient(w, 1, R_GOOD)); ONode pristine(recipient(w, 1, R_GOOD)), other(recipient(w, 2, R_GOOD)); ONode good(recipient(w, 3, R_GOOD)); int depth = mc::tier(4, 6);
        int key = 0, sig = 0, chain = 0, keyok = 0; (void)keyok;
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(7, "op"); mc::step();
            if (op == 0) { std::vector<wickr_node_t *> v = { good.get(), n.get() }; OEnc r = encode(w, v, 4); bool want = key == chain && sig == chain; mc::outcome(want ? "encodes" : "refuses"); MC_CHECK(want == (bool)r, "unverified-recipient", "device with key of %d, signature of %d, chain of %d: encoded %d", key, sig, chain, (bool)r); }
            else if (op == 1 || op == 2) { wickr_node_t *o = op == 1 ? pristine.get() : other.get(); key = op - 1; wickr_ec_key_destroy(&n->ephemeral_keypair->ec_key); n->ephemeral_keypair->ec_key = wickr_ec_key_copy(o->ephemeral_keypair->ec_key); }
            else if (op == 3 || op == 4) { wickr_node_t *o = op == 3 ? pristine.get() : other.get(); sig = op - 3; wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); n->ephemeral_keypair->signature = wickr_ecdsa_result_copy(o->ephemeral_keypair->signature); }
            else { wickr_node_t *o = op == 5 ? pristine.get() : other.get(); chain = op - 5; wickr_identity_chain_t *c = wickr_identity_chain_copy(o->id_chain); if (i & 1) wickr_identity_chain_validate(c, &w.e); wickr_identity_chain_destroy(&n->id_chain); n->id_chain = c; }
        }
    });
    return mc::finish();
}
