// M01: every addressed device, and only those, reads exactly the message sent
#include "msg.hpp"

static std::unique_ptr<World> toy, real;
static World &W(bool r) { return r ? *real : *toy; }

static void check_all_readers(World &w, const Dev &sender, const Bytes &pkt, const wickr_payload_t *pl, const wickr_cipher_key_t *pk, const std::vector<std::pair<int, int>> &to)
{
    for (int r = 0; r < (int)w.d.size(); r++) for (int k = 0; k < (int)w.d[r].keys.size(); k++) {
        int first = -1; bool addressed = false;
        for (auto &t : to) if (t.first == r) { if (first < 0) first = t.second; if (t.second == k) addressed = true; }
        Got g = read_packet(w.d[r].ctx.get(), pkt, sender.pub.get(), w.d[r].keys[k]->ec_key);
        mc::step();
        if (first == k) {
            mc::outcome("addressed"); mc::state(mc::Hash().b(pkt.data(), pkt.size()).u(r).u(k).h);
            MC_CHECK(g.ok, "addressed-cannot-read", "%s, addressed with key %d, cannot decode (parse error %d, decode error %d)", w.d[r].name.c_str(), k, g.perr, g.d ? g.d->err : -1);
            MC_CHECK(same_payload(g.d->decrypted_payload, pl), "wrong-content", "%s decodes something other than what was sent: body %s", w.d[r].name.c_str(), hex(str(g.d->decrypted_payload->body)).c_str());
            MC_CHECK(same_key(g.d->payload_key, pk), "wrong-key", "%s recovers a payload key other than the sender's", w.d[r].name.c_str());
            MC_CHECK(g.key_id == w.d[r].keys[k]->identifier, "wrong-key-id", "%s is told to use key %llu, but %llu was addressed", w.d[r].name.c_str(), (unsigned long long)g.key_id, (unsigned long long)w.d[r].keys[k]->identifier);
        } else if (addressed) {
            mc::outcome("second-entry"); // the same device listed twice with different keys: the first entry is the one it is pointed to
            if (g.ok) MC_CHECK(same_payload(g.d->decrypted_payload, pl), "wrong-content", "second entry decodes to something else");
        } else {
            mc::outcome("not-addressed");
            if (first < 0) MC_CHECK(g.perr == ERROR_NODE_NOT_FOUND, "not-told", "%s was not addressed but is told something other than that (error %d)", w.d[r].name.c_str(), g.perr);
            MC_CHECK(!g.ok, "unaddressed-can-read", "%s with key %d was not addressed but decodes the message", w.d[r].name.c_str(), k);
        }
    }
}
static OEnc encode(const wickr_ctx_t *ctx, const wickr_payload_t *pl, World &w, const std::vector<std::pair<int, int>> &to, int ver)
{
    std::vector<const wickr_node_t *> v; for (auto &t : to) v.push_back(w.d[t.first].nodes[t.second].get());
    Recips rc(v); OCtx c(wickr_ctx_copy(ctx)); c->pkt_enc_version = ver;
    return OEnc(wickr_ctx_encode_packet(c.get(), pl, rc.arr.get()));
}

int main(int argc, char **argv)
{
    mc::init("M01", "model_checking", "every recipient list (order, duplicates, one-time key of each) up to the bound over 5 devices of 3 accounts with 2 keys each, at every protocol version, read by every device with every key; all contexts of low-level decoding; all payload shapes of a grid; all recipient counts up to a bound", argc, argv);
    rng_install(); rng_seed(mc::seed());
    toy.reset(new World(toy_engine())); toy->account("A", 2); toy->account("B", 2); toy->account("C", 1);
    real.reset(new World(real_engine())); real->account("A", 2); real->account("B", 1);
    mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("exhaustive recipient lists use an ideal stand-in for the cryptographic engine (same interface); payload shapes and reader forms use the OpenSSL engine");
    const int maxn = mc::tier(3, 4);

    mc::part("recipients", [&] {
        World &w = W(false); int ver = mc::choose(3, "version") + 2; int n = mc::choose(maxn + 1, "count"); int s = n <= 2 ? mc::choose(5, "sender") : 0;
        std::vector<std::pair<int, int>> to; for (int i = 0; i < n; i++) { int x = mc::choose(10, "recipient"); to.push_back({ x / 2, x % 2 }); }
        OPayload pl(mk_payload(pat(20, n), pat(8, 3)));
        OEnc r = encode(w.d[s].ctx.get(), pl.get(), w, to, ver);
        if (!n) { mc::outcome("no-recipients"); MC_CHECK(!r, "empty-list", "a message to nobody was encoded"); return; }
        MC_CHECK(r && r->packet && r->packet_key, "encode-failed", "encoding for valid recipients failed");
        Bytes pkt = packet_bytes(r.get()); MC_CHECK(!pkt.empty(), "serialize-failed", "packet not serialised");
        MC_CHECK((int)(uint8_t)pkt[0] == ver, "version", "packet carries version %d instead of %d", (uint8_t)pkt[0], ver);
        check_all_readers(w, w.d[s], pkt, pl.get(), r->packet_key, to);
    });

    mc::part("contexts", [&] {
        World &w = W(false); int ver = mc::choose(3, "version") + 2; int s = mc::choose(mc::tier(1, 5), "sender");
        std::vector<std::pair<int, int>> to; for (int i = 0; i < 5; i++) to.push_back({ i, i % 2 });
        OPayload pl(mk_payload(pat(20), pat(8, 3)));
        OEnc r = encode(w.d[s].ctx.get(), pl.get(), w, to, ver); MC_CHECK(r, "encode-failed", "encoding failed"); Bytes pkt = packet_bytes(r.get());
        int find = mc::choose(6, "entry"), ps = mc::choose(5, "parse-sender");
        Exact b(pkt); OCtxPacket p(wickr_ctx_stateless_parse_packet(&w.e, find < 5 ? w.d[find].ctx->id_chain->node->identifier : nullptr, b, w.d[ps].pub.get()));
        MC_CHECK(p, "parse", "stateless parse returned nothing");
        if (ps != s) { mc::outcome("wrong-sender"); MC_CHECK(p->parse_result->err != E_SUCCESS && p->parse_result->signature_status == PACKET_SIGNATURE_INVALID && !p->parse_result->enc_payload && !p->parse_result->key_exchange_set, "attributed-to-other", "packet of %s parsed as coming from %s", w.d[s].name.c_str(), w.d[ps].name.c_str()); }
        else MC_CHECK(p->parse_result->err == E_SUCCESS && p->parse_result->signature_status == PACKET_SIGNATURE_VALID, "parse", "genuine packet refused: %d", p->parse_result->err);
        MC_CHECK(p->parse_result->err != E_SUCCESS || (find < 5) == (p->parse_result->key_exchange != nullptr), "parse", "key exchange presence");
        for (int id = 0; id < 5; id++) for (int x = 0; x < 10; x++) for (int rc = 0; rc < 5; rc++) for (int ds = 0; ds < 5; ds++) {
            ODecode d(wickr_decode_result_from_parse_result(p->packet, &w.e, p->parse_result, (MB)w.d[id].dev_id(), w.d[x / 2].keys[x % 2]->ec_key, w.d[rc].ctx->id_chain, w.d[ds].pub.get()));
            mc::step(); bool ok = d && d->err == E_SUCCESS;
            bool hard = ps == s && find < 5 && id == find && x / 2 == find && x % 2 == find % 2;
            bool ctxok = w.d[rc].acct == w.d[find < 5 ? find : 0].acct && w.d[ds].acct == w.d[s].acct;
            if (hard && ctxok) { mc::outcome("exact"); MC_CHECK(ok && same_payload(d->decrypted_payload, pl.get()) && same_key(d->payload_key, r->packet_key), "addressed-cannot-read", "exact context does not decode (entry %d)", find); }
            else if (hard && ver == 2) { mc::outcome("v2-unbound-identity"); if (ok) MC_CHECK(same_payload(d->decrypted_payload, pl.get()), "wrong-content", "v2"); }
            else { mc::outcome("inexact"); MC_CHECK(!ok, "wrong-context-reads", "v%d packet of %s, entry %d, decodes with device id of %d, key %d of %d, receiver chain of %d, sender chain of %d", ver, w.d[s].name.c_str(), find, id, x % 2, x / 2, rc, ds);
                MC_CHECK(!d || (!d->decrypted_payload && !d->payload_key), "leak-on-failure", "failed decode carries a payload or key"); }
        }
    });

    mc::part("payloads", [&] {
        static const std::vector<int> bodies = mc::thorough() ? std::vector<int>{ 1, 2, 15, 16, 17, 31, 32, 127, 128, 129, 1000, 16383, 16384, 65536, 1 << 20 } : std::vector<int>{ 1, 16, 127, 128, 16384 };
        static const std::vector<int> tags = mc::thorough() ? std::vector<int>{ 1, 32, 127, 128, 300 } : std::vector<int>{ 1, 32, 128 };
        static const std::vector<uint64_t> nums = mc::thorough() ? std::vector<uint64_t>{ 0, 1, 127, 128, 0xffffffffull, 0x100000000ull, UINT64_MAX } : std::vector<uint64_t>{ 0, 0x100000000ull, UINT64_MAX };
        static const std::vector<int> types = mc::thorough() ? std::vector<int>{ 0, 1, 127, 128, 0x7fff, 0x8000, 0xffff } : std::vector<int>{ 0, 1, 0xffff };
        bool re = mc::flip("engine"); World &w = W(re); int ver = mc::choose(3, "version") + 2; int bl = mc::pick(bodies, "body"), tl = mc::pick(tags, "tag"); uint64_t ttl = mc::pick(nums, "ttl"), bor = mc::pick(nums, "bor"); int ty = mc::pick(types, "type");
        if (re && !mc::thorough() && (bl == 127 || tl == 128 || ttl == UINT64_MAX)) { mc::prune(); }
        if (re && mc::thorough() && (ttl + bor) % 3 == 1) mc::prune();
        OPayload pl(mk_payload(pat(bl, tl), pat(tl, bl), ttl, bor, (uint16_t)ty));
        OEnc r = encode(w.d[0].ctx.get(), pl.get(), w, { { 2, 1 } }, ver); MC_CHECK(r, "encode-failed", "encoding failed for body %d tag %d", bl, tl);
        Bytes pkt = packet_bytes(r.get()); Got g = read_packet(w.d[2].ctx.get(), pkt, w.d[0].pub.get(), w.d[2].keys[1]->ec_key); mc::step();
        MC_CHECK(g.ok, "addressed-cannot-read", "body %d tag %d ttl %llu bor %llu type %d does not decode", bl, tl, (unsigned long long)ttl, (unsigned long long)bor, ty);
        MC_CHECK(same_payload(g.d->decrypted_payload, pl.get()), "wrong-content", "body %d tag %d ttl %llu bor %llu type %d decodes differently", bl, tl, (unsigned long long)ttl, (unsigned long long)bor, ty);
        MC_CHECK(same_key(g.d->payload_key, r->packet_key), "wrong-key", "payload key"); mc::state(mc::Hash().u(ver).u(bl).u(tl).u(ttl).u(bor).u(ty).h); mc::outcome(re ? "real" : "ideal");
    });

    // the reader, the sender and the packet may each have been copied, serialised or reloaded before use
    mc::part("forms", [&] {
        World &w = W(mc::flip("engine")); int ver = mc::choose(3, "version") + 2; int sf = mc::choose(4, "sender-form"), rf = mc::choose(4, "reader-form"), pf = mc::choose(3, "packet-form"), cf = mc::choose(3, "chain-form"), kf = mc::choose(3, "key-form");
        OBuf pass(mk("pass"));
        auto form = [&](const Dev &d, int f) -> OCtx {
            if (f == 0) return OCtx(wickr_ctx_copy(d.ctx.get()));
            if (f == 1) { OCtx a(wickr_ctx_copy(d.ctx.get())); return OCtx(wickr_ctx_copy(a.get())); }
            ODev di(wickr_dev_info_copy(d.ctx->dev_info)); OBuf b(f == 2 ? wickr_ctx_serialize(d.ctx.get()) : wickr_ctx_export(d.ctx.get(), pass.get()));
            MC_CHECK(b, "form", "context not exported"); OCtx c(f == 2 ? wickr_ctx_create_from_buffer(w.e, di.get(), b.get()) : wickr_ctx_import(w.e, di.get(), b.get(), pass.get())); if (c) di.release(); return c; };
        OCtx s = form(w.d[0], sf), rd = form(w.d[2], rf); MC_CHECK(s && rd, "form", "context form %d/%d unavailable", sf, rf);
        OPayload pl(mk_payload(pat(50), pat(8, 3), 5, 6, 7)); OEnc r = encode(s.get(), pl.get(), w, { { 1, 0 }, { 2, 1 } }, ver); MC_CHECK(r, "encode-failed", "encoding failed");
        Bytes pkt; if (pf == 0) pkt = packet_bytes(r.get()); else if (pf == 1) { OEnc c(wickr_encoder_result_copy(r.get())); MC_CHECK(c && same_key(c->packet_key, r->packet_key), "copy", "encoder result copy"); pkt = packet_bytes(c.get()); } else { Bytes a = packet_bytes(r.get()); Exact ea(a); OPacket p(wickr_packet_create_from_buffer(ea)); MC_CHECK(p, "packet", "own packet refused"); OPacket q(wickr_packet_copy(p.get())); pkt = take(wickr_packet_serialize(q.get())); MC_CHECK(pkt == a, "packet", "packet does not re-serialise identically"); }
        OChain ch(cf == 0 ? wickr_identity_chain_copy(w.d[0].ctx->id_chain) : cf == 1 ? wickr_identity_chain_copy(w.d[0].pub.get()) : pub_chain(w.e, w.d[0].pub.get()));
        OEph k(wickr_ephemeral_keypair_copy(w.d[2].keys[1].get())); if (kf == 1) { OEph k2(wickr_ephemeral_keypair_copy(k.get())); k = std::move(k2); }
        OEc ek(kf == 2 ? w.e.wickr_crypto_engine_ec_key_import(k->ec_key->pri_data, true) : wickr_ec_key_copy(k->ec_key)); MC_CHECK(ek, "key", "key form");
        Got g = read_packet(rd.get(), pkt, ch.get(), ek.get()); mc::step();
        MC_CHECK(g.ok && same_payload(g.d->decrypted_payload, pl.get()) && same_key(g.d->payload_key, r->packet_key), "addressed-cannot-read", "forms s%d r%d p%d c%d k%d v%d", sf, rf, pf, cf, kf, ver);
        Got g2 = read_packet(rd.get(), pkt, ch.get(), w.d[2].keys[0]->ec_key); MC_CHECK(!g2.ok, "unaddressed-can-read", "other one-time key");
        mc::outcome("forms"); mc::state(mc::Hash().u(ver).u(sf).u(rf).u(pf).u(cf).u(kf).h);
    });

    // many recipients; several messages in a row never share keys
    mc::part("crowd", [&] {
        static World *c = nullptr; static int have = 0; const int n = mc::choose(mc::tier(34, 140), "recipients") + 1; int ver = mc::choose(3, "version") + 2;
        if (!c) { c = new World(toy_engine()); } rng_seed(99 + have); while (have < n + 1) { c->account(("U" + std::to_string(have++) + "x").c_str(), 1, 1); } rng_seed(5);
        std::vector<std::pair<int, int>> to; for (int i = 0; i < n; i++) to.push_back({ i, 0 });
        OPayload pl(mk_payload(pat(20), pat(8, 3))); OEnc r = encode(c->d[0].ctx.get(), pl.get(), *c, to, ver); MC_CHECK(r, "encode-failed", "%d recipients", n); Bytes pkt = packet_bytes(r.get());
        for (int i = 0; i <= n; i++) { Got g = read_packet(c->d[i].ctx.get(), pkt, c->d[0].pub.get(), c->d[i].keys[0]->ec_key); mc::step(); MC_CHECK(g.ok == (i < n), i < n ? "addressed-cannot-read" : "unaddressed-can-read", "reader %d of %d", i, n); if (g.ok) MC_CHECK(same_payload(g.d->decrypted_payload, pl.get()), "wrong-content", "reader %d of %d", i, n); }
        mc::outcome("crowd"); mc::state(mc::Hash().u(n).u(ver).h);
    });
    mc::part("crowd-large", [&] {
        static World *c = nullptr; static int have = 0; static const std::vector<int> sizes = mc::thorough() ? std::vector<int>{ 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025 } : std::vector<int>{ 64, 65, 100, 127, 128, 129, 255, 256, 257, 300 };
        const int n = mc::pick(sizes, "recipients"), ver = mc::choose(3, "version") + 2; if (!c) c = new World(toy_engine()); rng_seed(199 + have); while (have < n + 1) c->account(("L" + std::to_string(have++) + "x").c_str(), 1, 1); rng_seed(5);
        std::vector<std::pair<int, int>> to; for (int i = 0; i < n; i++) to.push_back({ i, 0 }); OPayload pl(mk_payload(pat(20), pat(8, 3))); OEnc r = encode(c->d[0].ctx.get(), pl.get(), *c, to, ver); MC_CHECK(r, "encode-failed", "%d recipients", n); Bytes pkt = packet_bytes(r.get());
        for (int i : { 0, 1, 31, 63, 64, 99, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, n - 2, n - 1, n }) { if (i > n) continue; Got g = read_packet(c->d[i].ctx.get(), pkt, c->d[0].pub.get(), c->d[i].keys[0]->ec_key); mc::step(); MC_CHECK(g.ok == (i < n), i < n ? "addressed-cannot-read" : "unaddressed-can-read", "reader %d of %d", i, n); if (g.ok) MC_CHECK(same_payload(g.d->decrypted_payload, pl.get()), "wrong-content", "reader %d of %d", i, n); }
        mc::outcome("crowd"); mc::state(mc::Hash().u(n).u(ver).h);
    });
    // one field of a message runs over all its sizes and values, the others at rest
    mc::part("values", [&] {
        World &w = W(false); const bool T = mc::thorough(); static std::vector<uint64_t> nums; if (nums.empty()) for (int k = 0; k < 64; k++) for (int d = -1; d <= 1; d++) nums.push_back((1ull << k) + d);
        int axis = mc::choose(5, "field"); uint64_t v; size_t bl = 20, tl = 32; uint64_t ttl = 5, bor = 6; unsigned ty = 7;
        if (axis == 0) { static std::vector<int> bl2; if (bl2.empty()) { for (int i = 1; i <= (T ? 5000 : 700); i++) bl2.push_back(i); for (int c : { 4096, 16384, 32768, 65536, 1 << 20 }) for (int d = -1; d <= 1; d++) bl2.push_back(c + d); if (T) bl2.push_back(1 << 24); } v = bl = mc::pick(bl2, "body"); }
        else if (axis == 1) { static std::vector<int> tl2; if (tl2.empty()) { for (int i = 1; i <= 300; i++) tl2.push_back(i); for (int c : { 1024, 4096, 65536 }) for (int d = -1; d <= 1; d++) tl2.push_back(c + d); } v = tl = mc::pick(tl2, "tag"); }
        else if (axis == 2) v = ttl = mc::pick(nums, "ttl"); else if (axis == 3) v = bor = mc::pick(nums, "bor");
        else v = ty = T ? mc::choose(65536, "type") : [&] { int i = mc::choose(300 + 48, "type"); return i < 300 ? i : (int)(((1u << (i - 300) / 3) + (i - 300) % 3 - 1) & 0xffff); }();
        OPayload pl(mk_payload(pat(bl, 1), pat(tl, 2), ttl, bor, (uint16_t)ty)); OEnc r = encode(w.d[0].ctx.get(), pl.get(), w, { { 2, 1 } }, 4); MC_CHECK(r, "encode-failed", "field %d value %llu", axis, (unsigned long long)v);
        Got g = read_packet(w.d[2].ctx.get(), packet_bytes(r.get()), w.d[0].pub.get(), w.d[2].keys[1]->ec_key); mc::step(); MC_CHECK(g.ok, "addressed-cannot-read", "field %d value %llu does not decode", axis, (unsigned long long)v); MC_CHECK(same_payload(g.d->decrypted_payload, pl.get()), "wrong-content", "field %d value %llu decodes differently", axis, (unsigned long long)v);
        mc::state(mc::Hash().u(axis).u(v).h); mc::outcome("read");
    });
    // many messages in the same contexts: what was sent before has no bearing
    auto many = [&](bool rl, int n) { World &w = W(rl); int base = mc::choose(3, "version"); for (int i = 0; i < n; i++) {
        int s = i % 2, t = rl ? 2 : 2 + i / 2 % 2, k = i / 3 % 2, ver = 2 + (base + i / 7) % 3; OPayload pl(mk_payload(pat(1 + i % 61, i), pat(8 + i % 9, i + 1), i, n - i, (uint16_t)i)); OEnc r = encode(w.d[s].ctx.get(), pl.get(), w, rl ? std::vector<std::pair<int, int>>{ { t, k } } : std::vector<std::pair<int, int>>{ { t, k }, { 4, 1 } }, ver); MC_CHECK(r, "encode-failed", "message %d", i); Bytes pkt = packet_bytes(r.get()); mc::step();
        Got g = read_packet(w.d[t].ctx.get(), pkt, w.d[s].pub.get(), w.d[t].keys[k]->ec_key); MC_CHECK(g.ok, "addressed-cannot-read", "message %d", i); MC_CHECK(same_payload(g.d->decrypted_payload, pl.get()), "wrong-content", "message %d", i); if (!rl && i % 5 == 0) { Got x = read_packet(w.d[5 - t].ctx.get(), pkt, w.d[s].pub.get(), w.d[5 - t].keys[k]->ec_key); MC_CHECK(!x.ok, "unaddressed-can-read", "message %d", i); } }
        mc::outcome("read"); mc::state(mc::Hash().s("many").u(rl).u(base).h); };
    mc::part("long-run", [&] { many(false, mc::tier(6000, 70000)); }); mc::part("long-run-real", [&] { many(true, mc::tier(40, 1500)); });
    // two devices whose identifiers are nearly the same
    mc::part("identifiers", [&] {
        World &w = W(false); const Bytes base = pat(32, 77); int v = mc::choose(32 + 5, "difference"), ver = mc::choose(3, "version") + 2, who = mc::choose(3, "addressed"), acct = mc::choose(2, "accounts"); Bytes other = base;
        if (v < 32) other[v] ^= 1 << v % 8; else if (v == 32) other.pop_back(); else if (v == 33) other += base[31]; else if (v == 34) other += Bytes(1, 0); else if (v == 35) other = other.substr(0, 16); else other = base + base;
        OId root(wickr_identity_create(IDENTITY_TYPE_ROOT, mk("twins"), w.e.wickr_crypto_engine_ec_rand_key(w.e.default_curve), nullptr)), root2(wickr_identity_create(IDENTITY_TYPE_ROOT, mk("others"), w.e.wickr_crypto_engine_ec_rand_key(w.e.default_curve), nullptr)); World t(w.e);
        for (int i = 0; i < 2; i++) { wickr_identity_t *r = wickr_identity_copy(i && acct ? root2.get() : root.get()); OBuf id(mk(i ? other : base)), sys(mk(i ? "system b" : "system a")); Dev x; x.name = i ? "second" : "first"; wickr_identity_t *n = wickr_node_identity_gen(&w.e, r, id.get());
            x.ctx.reset(wickr_ctx_create(w.e, wickr_dev_info_create_new(&w.e, sys.get()), wickr_identity_chain_create(r, n), wickr_storage_keys_create(w.e.wickr_crypto_engine_cipher_key_random(w.e.default_cipher), w.e.wickr_crypto_engine_cipher_key_random(w.e.default_cipher)))); x.pub.reset(pub_chain(w.e, x.ctx->id_chain)); x.keys.emplace_back(wickr_ctx_ephemeral_keypair_gen(x.ctx.get(), 3 + i)); x.nodes.emplace_back(t.node_for(x, 0)); MC_CHECK(x.pub && x.nodes[0], "devices", "device of identifier %s cannot be made", hex(i ? other : base).c_str()); t.d.push_back(std::move(x)); }
        std::vector<std::pair<int, int>> to; if (who != 1) to.push_back({ 0, 0 }); if (who != 0) to.push_back({ 1, 0 });
        OPayload pl(mk_payload(pat(20), pat(8, 3))); OEnc r = encode(w.d[0].ctx.get(), pl.get(), t, to, ver); MC_CHECK(r, "encode-failed", "encoding failed"); check_all_readers(t, w.d[0], packet_bytes(r.get()), pl.get(), r->packet_key, to);
    });
    mc::part("messages", [&] {
        World &w = W(mc::flip("engine")); int n = mc::choose(mc::tier(3, 5), "messages") + 1; int nd = (int)w.d.size();
        std::vector<Bytes> pk, xk, pkts; std::vector<std::unique_ptr<OPayload>> pls; std::vector<int> from, dst;
        for (int i = 0; i < n; i++) { int s = mc::choose(2, "sender"), t = mc::choose(nd, "to"); int ver = 2 + (i + s) % 3; pls.emplace_back(new OPayload(mk_payload(pat(30, i), pat(8, i)))); OEnc r = encode(w.d[s].ctx.get(), pls[i]->get(), w, { { t, 0 } }, ver); MC_CHECK(r, "encode-failed", "message %d", i); Bytes k = str(r->packet_key->key_data);
            for (auto &o : pk) MC_CHECK(o != k, "key-reuse", "two messages share a payload key"); pk.push_back(k); pkts.push_back(packet_bytes(r.get())); { Exact pb(pkts.back()); OCtxPacket pp(wickr_ctx_stateless_parse_packet(&w.e, nullptr, pb, w.d[s].pub.get())); MC_CHECK(pp && pp->parse_result->key_exchange_set, "parse", "message %d", i); Bytes x = str(pp->parse_result->key_exchange_set->sender_pub->pub_data); for (auto &o : xk) MC_CHECK(o != x, "exchange-key-reuse", "two messages share an exchange key"); for (auto &d : w.d) for (auto &kk : d.keys) MC_CHECK(str(kk->ec_key->pub_data) != x, "exchange-key-reuse", "a message is exchanged with a one-time key of a device"); xk.push_back(x); } from.push_back(s); dst.push_back(t); }
        for (int i = n - 1; i >= 0; i--) for (int t = 0; t < nd; t++) { Got g = read_packet(w.d[t].ctx.get(), pkts[i], w.d[from[i]].pub.get(), w.d[t].keys[0]->ec_key); mc::step(); MC_CHECK(g.ok == (t == dst[i]), t == dst[i] ? "addressed-cannot-read" : "unaddressed-can-read", "message %d, reader %d", i, t); if (g.ok) MC_CHECK(same_payload(g.d->decrypted_payload, pls[i]->get()), "wrong-content", "message %d", i); }
        mc::outcome("messages");
    });
    return mc::finish();
}
