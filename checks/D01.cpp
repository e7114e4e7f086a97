#include "obj.hpp"
static wickr_crypto_engine_t E;
// The context serialises without its device information: parse with the same one, and header key and version as defaults
static void *parse_of(const Type &t, const void *o, CB b) { if (std::string(t.name) == "ctx") return wickr_ctx_create_from_buffer(E, wickr_dev_info_copy(((const wickr_ctx_t *)o)->dev_info), b); return t.parse(E, b); }
static void roundtrip(const Type &t, bool full)
{
    Maker m{ E, full }; void *o = t.make(m); MC_CHECK(o, "make", "%s: the object cannot be made", t.name);
    std::string all = t.text(o), before = t.text(o, t.pub_ser); MB s = t.ser(E, o);
    mc::state(mc::Hash().s(t.name).s(all).h); mc::step();
    MC_CHECK(t.text(o) == all, t.name, "%s: serialising changes the object", t.name);
    bool empty_ct = false; if (std::string(t.name) == "cipher_result") empty_ct = !((wickr_cipher_result_t *)o)->cipher_text;
    if (empty_ct) { mc::outcome("no-ciphertext"); wickr_buffer_destroy(&s); t.destroy(o); return; }       // outside the format (see DESIGN.md)
    MC_CHECK(s, t.name, "%s: cannot be serialised: %s", t.name, all.c_str());
    Bytes sb = str(s); wickr_buffer_destroy(&s); { OBuf again(t.ser(E, o)); MC_CHECK(is(again.get(), sb), t.name, "%s: serialises differently the second time", t.name); }
    Exact x(sb); void *p = parse_of(t, o, x); MC_CHECK(p, t.name, "%s: what it serialised to is refused: %s", t.name, all.c_str());
    MC_CHECK(str(x) == sb, t.name, "%s: parsing changes its input", t.name);
    std::string after = t.text(p, t.pub_ser);
    if (std::string(t.name) == "identity_chain_private") { Dump a(false), b(false); const wickr_identity_chain_t *c1 = (wickr_identity_chain_t *)o, *c2 = (wickr_identity_chain_t *)p; d(a, c1->root); d(a, c1->node); d(b, c2->root); d(b, c2->node); before = a.text; after = b.text; }
    if (std::string(t.name) == "ctx") { ((wickr_ctx_t *)p)->pkt_enc_version = ((wickr_ctx_t *)o)->pkt_enc_version; Dump a(false), b(false); const wickr_ctx_t *c1 = (wickr_ctx_t *)o, *c2 = (wickr_ctx_t *)p; d(a, c1->dev_info); d(a, c1->id_chain->root); d(a, c1->id_chain->node); d(a, c1->storage_keys); d(a, c1->packet_header_key); d(b, c2->dev_info); d(b, c2->id_chain->root); d(b, c2->id_chain->node); d(b, c2->storage_keys); d(b, c2->packet_header_key); before = a.text; after = b.text; }
    MC_CHECK(before == after, t.name, "%s: reads back different:\n  wrote %s\n  read  %s", t.name, before.c_str(), after.c_str());
    { OBuf r(t.ser(E, p)); MC_CHECK(is(r.get(), sb), t.name, "%s: re-serialises differently: %s then %s", t.name, hex(sb, 200).c_str(), hex(str(r.get()), 200).c_str()); }
    if (t.copy) { void *c = t.copy(o); MC_CHECK(c, t.name, "%s: cannot be copied", t.name); OBuf r(t.ser(E, c)); MC_CHECK(is(r.get(), sb), t.name, "%s: a copy serialises differently", t.name); t.destroy(c); void *c2 = t.copy(p); OBuf r2(t.ser(E, c2)); MC_CHECK(is(r2.get(), sb), t.name, "%s: a copy of the parsed object serialises differently", t.name); t.destroy(c2); }
    if (t.pub_ser) { Dump o2(false); t.dump(o2, p); MC_CHECK(o2.secrets.empty(), t.name, "%s: the parsed public form contains private parts", t.name); }
    mc::nontrivial(mc::Hash().s(t.name).s(sb).h); mc::outcome(t.name); t.destroy(p); t.destroy(o);
}
static void all_of(bool full) { std::vector<const Type *> v; for (auto &t : types()) if (t.ser) v.push_back(&t); roundtrip(*v[mc::choose((int)v.size())], full); }
static void meta_bytes()        // the header of a transport packet: every combination of fields, and the number of bytes it reports
{
    wickr_transport_packet_meta_t m, r; static const uint64_t seqs[] = { 0, 1, 127, 128, 255, 256, 1ull << 31, 1ull << 32, 1ull << 56, UINT64_MAX - 1, UINT64_MAX }; static const wickr_transport_packet_mac_type mt[] = { TRANSPORT_MAC_TYPE_NONE, TRANSPORT_MAC_TYPE_AUTH_CIPHER, TRANSPORT_MAC_TYPE_EC_P521 };
    memset(&m, 0x5a, sizeof m); memset(&r, 0xa5, sizeof r); bool data = mc::flip(); wickr_transport_packet_mac_type k = mt[mc::choose(3)];
    if (data) wickr_transport_packet_meta_initialize_data(&m, seqs[mc::choose(11)], k); else { wickr_transport_packet_meta_initialize_handshake(&m, (uint8_t)mc::choose(256), k); }
    OBuf b(wickr_transport_packet_meta_serialize(&m)); MC_CHECK(b, "transport-meta", "cannot be serialised"); mc::step(); mc::state(mc::Hash().s(str(b.get())).h);
    Bytes tail = pat(mc::pick(std::vector<int>{ 0, 1, 20 }), 3); Exact x(str(b.get()) + tail); int n = wickr_transport_packet_meta_initialize_buffer(&r, x);
    MC_CHECK(n == (int)b->length, "transport-meta", "header of %zu bytes parsed as %d", b->length, n); MC_CHECK(r.body_type == m.body_type && r.mac_type == m.mac_type, "transport-meta", "types differ");
    if (data) MC_CHECK(r.body_meta.data.sequence_number == m.body_meta.data.sequence_number, "transport-meta", "sequence number differs"); else MC_CHECK(r.body_meta.handshake.protocol_version == m.body_meta.handshake.protocol_version && r.body_meta.handshake.flags == m.body_meta.handshake.flags, "transport-meta", "handshake fields differ");
    OBuf c(wickr_transport_packet_meta_serialize(&r)); MC_CHECK(same(b.get(), c.get()), "transport-meta", "re-serialises differently"); mc::outcome(data ? "data" : "handshake"); mc::nontrivial(mc::Hash().s(str(b.get())).u(k).h);
}
static void sizes()             // every length of the variable parts
{
    int what = mc::choose(11), lim = mc::thorough() ? 4096 : 600; static const int big[] = { 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 262144, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 1, 5000011 }; int n = mc::choose(lim + 20); n = n < lim ? n + 1 : big[n - lim]; if ((what == 6 && n > 5000) || (what == 7 && n > 127)) mc::prune(); mc::step(); mc::state(mc::Hash().u(what).u(n).h); mc::nontrivial(mc::Hash().u(what).u(n).h);
    auto go = [&](const char *name, void *o) { for (auto &t : types()) if (std::string(t.name) == name) { MC_CHECK(o, name, "length %d cannot be made", n); OBuf s(t.ser(E, o)); MC_CHECK(s, name, "length %d cannot be serialised", n); Exact x(str(s.get())); void *p = t.parse(E, x); MC_CHECK(p, name, "length %d is refused", n); MC_CHECK(t.text(o, t.pub_ser) == t.text(p, t.pub_ser), name, "length %d reads back different", n); OBuf r(t.ser(E, p)); MC_CHECK(same(r.get(), s.get()), name, "length %d re-serialises differently", n); t.destroy(p); t.destroy(o); mc::outcome(name); } };
    if (what == 0) go("cipher_result", wickr_cipher_result_create(CIPHER_AES256_GCM, mk(pat(12)), mk(pat(n)), mk(pat(16))));
    if (what == 1) go("payload", mk_payload(pat(n, 1), pat(1 + n % 97, 2), n, n, (uint16_t)(n * 16)));
    if (what == 2) go("packet", wickr_packet_create(4, mk(pat(n)), wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, mk(pat(1 + n % (EC_CURVE_NIST_P521.signature_size - 2))))));
    if (what == 3) go("stream_key", wickr_stream_key_create_user_data(E.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM), mk(pat(32)), n > 32768 ? 32768 : n, mk(pat(n))));
    if (what == 4) go("payload", mk_payload(pat(1 + n % 97, 1), pat(n, 2), ~0ull - n, n, (uint16_t)n));
    if (what == 5) { MB id = mk(pat(1 + n % 64, 3)); Maker m{ E, false }; wickr_exchange_array_t *a = wickr_exchange_array_new(1); wickr_exchange_array_set_item(a, 0, wickr_key_exchange_create(id, n, wickr_cipher_result_create(CIPHER_AES256_CTR, mk(pat(16)), mk(pat(n, 4)), nullptr))); go("key_exchange_set", wickr_key_exchange_set_create(m.ec(false), a)); }
    if (what == 6) { Maker m{ E, false }; wickr_exchange_array_t *a = wickr_exchange_array_new(n); for (int i = 0; i < n; i++) { MB id = mk(pat(32, i)); wickr_exchange_array_set_item(a, i, wickr_key_exchange_create(id, i, wickr_cipher_result_create(CIPHER_AES256_CTR, mk(pat(16, i)), mk(pat(33, i + 3)), nullptr))); } go("key_exchange_set", wickr_key_exchange_set_create(m.ec(false), a)); }
    if (what == 7) { Maker m{ E, false }; go("identity", wickr_identity_create(IDENTITY_TYPE_ROOT, mk(pat(n, 5)), m.ec(true), nullptr)); }
    if (what == 8) { Maker m{ E, false }; wickr_ec_key_t *k = m.ec(true); OId r(wickr_identity_create(IDENTITY_TYPE_ROOT, mk(pat(32)), k, nullptr)); go("node", wickr_node_create(mk(pat(n, 6)), wickr_identity_chain_create(wickr_identity_copy(r.get()), wickr_node_identity_gen(&E, r.get(), r->identifier)), nullptr)); }
    if (what == 9) { wickr_transport_packet_meta_t m; wickr_transport_packet_meta_initialize_data(&m, (uint64_t)n << (n % 40), TRANSPORT_MAC_TYPE_AUTH_CIPHER); go("transport_packet", wickr_transport_packet_create(m, mk(pat(n, 7)))); }
    if (what == 10) { wickr_transport_packet_meta_t m; wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521); wickr_transport_packet_t *p = wickr_transport_packet_create(m, mk(pat(n, 8))); OChain x(mk_chain(E, "signer", "dev")); MC_CHECK(p && wickr_transport_packet_sign(p, &E, x.get()), "transport_packet", "length %d cannot be signed", n); go("transport_packet", p); }
}
static void channel_root()      // the root key of a channel: nothing but its copies and the stream keys made from it
{
    static const uint32_t n[] = { 1, 2, 512, 32767, 32768 }; uint32_t s = n[mc::choose(5)], r = n[mc::choose(5)]; bool ctr = mc::flip(), rnd = mc::flip(); wickr_cipher_t ci = ctr ? CIPHER_AES256_CTR : CIPHER_AES256_GCM; mc::step(); mc::state(mc::Hash().u(s).u(r).u(ctr).u(rnd).h); mc::nontrivial(mc::Hash().u(s).u(r).u(ctr).u(rnd).h);
    wickr_transport_root_key_t *k = rnd ? wickr_transport_root_key_create_random(&E, ci, s, r) : wickr_transport_root_key_create(mk(pat(32, 9)), ci, s, r), *c = wickr_transport_root_key_copy(k); MC_CHECK(k && c, "channel-root-key", "cannot be made or copied");
    for (auto *x : { k, c }) MC_CHECK(x->secret->length == 32 && (rnd || is(x->secret, pat(32, 9))) && x->cipher.cipher_id == ci.cipher_id && x->packets_per_evo_send == s && x->packets_per_evo_recv == r, "channel-root-key", "%s: %u/%u reads %u/%u", x == k ? "created" : "copied", s, r, x->packets_per_evo_send, x->packets_per_evo_recv); MC_CHECK(same(k->secret, c->secret) && k->secret->bytes != c->secret->bytes, "channel-root-key", "the copy has another secret");
    Bytes salt = "salt", id = "id", id2 = "other"; Exact sl(salt), x1(id), x2(id2); for (int d = 0; d < 2; d++) { wickr_stream_direction dir = d ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE; OSKey a(wickr_transport_root_key_to_stream_key(k, &E, sl, x1, dir)), b(wickr_transport_root_key_to_stream_key(c, &E, sl, x1, dir)), o(wickr_transport_root_key_to_stream_key(c, &E, sl, x2, dir)); MC_CHECK(a && b && o, "channel-root-key", "no stream key"); uint32_t want = d ? r : s;
        MC_CHECK(a->packets_per_evolution == want && b->packets_per_evolution == want, "channel-root-key", "a stream key with %u instead of %u packets per key", a->packets_per_evolution, want); MC_CHECK(a->cipher_key->cipher.cipher_id == ci.cipher_id, "channel-root-key", "another cipher"); MC_CHECK(same(a->cipher_key->key_data, b->cipher_key->key_data) && same(a->evolution_key, b->evolution_key), "channel-root-key", "the copy gives other stream keys"); MC_CHECK(!same(a->cipher_key->key_data, o->cipher_key->key_data) && !same(a->evolution_key, o->evolution_key) && !same(a->cipher_key->key_data, a->evolution_key), "channel-root-key", "two streams share a key"); }
    wickr_transport_root_key_destroy(&k); wickr_transport_root_key_destroy(&c); mc::outcome("channel-root-key");
}
int main(int c, char **v)
{
    mc::init("D01", "model_checking", "exhaustive enumeration of every serialisable object type and every combination of its variants (optional parts, key kinds, extreme lengths and integers), each written, read back, compared field by field and re-written, on the compiled implementation", c, v);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("objects are compared through the public fields of their structures; caches of verification verdicts are not content");
    E = toy_engine(); std::set<std::string> req; for (auto &t : types()) if (t.ser) req.insert(t.name);
    mc::PartOpts o; o.require = req; mc::part("round-trip", [] { all_of(true); }, o);
    mc::PartOpts o2; o2.require = { "data", "handshake" }; mc::part("transport-header", meta_bytes, o2);
    mc::part("channel-root-key", channel_root); mc::part("every-length", sizes);
    E = real_engine(); mc::part("real-engine", [] { all_of(mc::thorough()); }, o);
    return mc::finish();
}
