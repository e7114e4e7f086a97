// msg.hpp - a population of accounts and devices for the message checks
#pragma once
#include "w.hpp"

struct Dev {
    std::string name; int acct = 0;
    OCtx ctx;                       // private context of the device
    OChain pub;                     // what everybody else knows of it (through serialisation)
    std::vector<OEph> keys;         // its one-time keys, with private parts
    std::vector<ONode> nodes;       // public nodes advertising each of them (through serialisation)
    Dev() {} Dev(Dev &&) = default;
    CB dev_id() const { return ctx.p->dev_info->msg_proto_id; }
};
struct World {
    wickr_crypto_engine_t e;
    std::vector<Dev> d;
    explicit World(const wickr_crypto_engine_t &eng) : e(eng) {}
    // account: number of devices it has
    void account(const char *user, int devices, int keys = 2)
    {
        wickr_identity_t *root = wickr_identity_create(IDENTITY_TYPE_ROOT, mk(user), e.wickr_crypto_engine_ec_rand_key(e.default_curve), nullptr);
        static int acct = 0; int a = ++acct;
        for (int i = 0; i < devices; i++) add(std::string(user) + std::to_string(i + 1), a, wickr_identity_copy(root), keys);
        wickr_identity_destroy(&root);
    }
    void add(const std::string &name, int acct, wickr_identity_t *root, int keys)
    {
        Dev x; x.name = name; x.acct = acct;
        wickr_identity_t *node = wickr_node_identity_gen(&e, root, nullptr);
        wickr_identity_chain_t *chain = wickr_identity_chain_create(root, node);
        OBuf sys(mk("system of " + name));
        wickr_dev_info_t *di = wickr_dev_info_create_new(&e, sys.get());
        wickr_storage_keys_t *sk = wickr_storage_keys_create(e.wickr_crypto_engine_cipher_key_random(e.default_cipher), e.wickr_crypto_engine_cipher_key_random(e.default_cipher));
        x.ctx.p = wickr_ctx_create(e, di, chain, sk);
        if (!x.ctx) { fprintf(stderr, "world: context\n"); abort(); }
        x.pub.p = pub_chain(e, chain);
        for (int k = 0; k < keys; k++) {
            uint64_t id = 100 * (uint64_t)d.size() + k + 1; switch ((d.size() + 2 * k) % 4) { case 1: id |= 1ull << 32; break; case 2: id = UINT64_MAX - id; break; case 3: id |= 1ull << 31; break; }
            x.keys.emplace_back(wickr_ctx_ephemeral_keypair_gen(x.ctx.get(), id));
            x.nodes.emplace_back(node_for(x, k));
            if (!x.pub || !x.keys[k] || !x.nodes[k]) { fprintf(stderr, "world: node\n"); abort(); }
        }
        d.push_back(std::move(x));
    }
    // a public node (no private material) as a server would hand it out; does not verify
    wickr_node_t *node_for(const Dev &x, int k) const
    {
        ONode n(wickr_node_create(wickr_buffer_copy(x.dev_id()), wickr_identity_chain_copy(x.pub.get()), wickr_ephemeral_keypair_copy(x.keys[k].get())));
        OBuf b(wickr_node_serialize(n.get())); return b ? wickr_node_create_from_buffer(b.get(), &e) : nullptr;
    }
};
inline wickr_payload_t *mk_payload(const Bytes &body, const Bytes &tag, uint64_t ttl = 1, uint64_t bor = 0, uint16_t type = 1000)
{
    wickr_ephemeral_info_t i = { ttl, bor }; MB t = mk(tag), b = mk(body);
    wickr_packet_meta_t *m = wickr_packet_meta_create(i, t, type); if (!m) { wickr_buffer_destroy_zero(&t); wickr_buffer_destroy_zero(&b); return nullptr; }
    wickr_payload_t *p = wickr_payload_create(m, b); if (!p) { wickr_packet_meta_destroy(&m); wickr_buffer_destroy_zero(&b); } return p;
}
inline bool same_payload(const wickr_payload_t *a, const wickr_payload_t *b)
{
    return a && b && a->meta && b->meta && same(a->body, b->body) && same(a->meta->channel_tag, b->meta->channel_tag) && a->meta->content_type == b->meta->content_type
        && a->meta->ephemerality_settings.ttl == b->meta->ephemerality_settings.ttl && a->meta->ephemerality_settings.bor == b->meta->ephemerality_settings.bor;
}
inline bool same_key(const wickr_cipher_key_t *a, const wickr_cipher_key_t *b) { return a && b && a->cipher.cipher_id == b->cipher.cipher_id && same(a->key_data, b->key_data); }
// recipients: copies of the given nodes, as an array (owns the copies)
struct Recips {
    std::vector<ONode> own; ONodes arr;
    explicit Recips(const std::vector<const wickr_node_t *> &v)
    {
        arr.p = wickr_node_array_new((uint32_t)v.size());
        for (size_t i = 0; i < v.size(); i++) { own.emplace_back(wickr_node_copy(v[i])); if (!wickr_node_array_set_item(arr.p, (uint32_t)i, own[i].get())) { fprintf(stderr, "recips\n"); abort(); } }
    }
};
inline Bytes packet_bytes(const wickr_encoder_result_t *r) { return r && r->packet ? take(wickr_packet_serialize(r->packet)) : Bytes(); }

// What one reader gets out of a packet: nothing, or the payload (and the key)
struct Got { bool ok = false; ODecode d; uint64_t key_id = 0; wickr_decode_error perr = E_SUCCESS; };
static Got read_packet(const wickr_ctx_t *ctx, const Bytes &pkt, const wickr_identity_chain_t *sender, wickr_ec_key_t *key)
{
    Got g; Exact b(pkt); OCtxPacket p(wickr_ctx_parse_packet(ctx, b, sender)); if (!p) return g;
    g.perr = p->parse_result->err; if (p->parse_result->key_exchange) g.key_id = p->parse_result->key_exchange->key_id;
    g.d.reset(wickr_ctx_decode_packet(ctx, p.get(), key)); if (!g.d) return g;
    g.ok = g.d->err == E_SUCCESS;
    MC_CHECK(g.ok == (g.d->decrypted_payload != nullptr), "decode-shape", "decode result error %d but payload %s", g.d->err, g.d->decrypted_payload ? "present" : "absent");
    MC_CHECK(g.ok || !g.d->payload_key, "decode-shape", "failed decode (error %d) hands out a payload key", g.d->err);
    return g;
}
