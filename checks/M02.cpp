// M02: a modified message is never accepted as something the sender did not send
#include "msg.hpp"
#include "strm.hpp"

struct Gen { int sender; std::set<int> to; Bytes pkt, content; OPayload pl; int ver; OKey key; };   // a genuine message
struct Net { World w; std::vector<Gen> g; Net(const wickr_crypto_engine_t &e) : w(e) {} };
static std::unique_ptr<Net> toy, real;

static void send(Net &n, int s, const std::vector<int> &to, int ver, const Bytes &body)
{
    std::vector<const wickr_node_t *> v; for (int t : to) v.push_back(n.w.d[t].nodes[0].get());
    Recips rc(v); OCtx c(wickr_ctx_copy(n.w.d[s].ctx.get())); c->pkt_enc_version = ver;
    Gen g; g.sender = s; g.to.insert(to.begin(), to.end()); g.ver = ver; g.pl.reset(mk_payload(body, Bytes(4, 't')));
    OEnc r(wickr_ctx_encode_packet(c.get(), g.pl.get(), rc.arr.get())); if (!r) { fprintf(stderr, "send\n"); abort(); }
    g.content = str(r->packet->content); g.pkt = packet_bytes(r.get()); g.key.reset(wickr_cipher_key_copy(r->packet_key)); n.g.push_back(std::move(g));
}
// Everything a recipient may conclude from these bytes
static void judge(Net &n, const Bytes &pkt, int reader, int claimed, int key = 0)
{
    const Dev &r = n.w.d[reader]; Exact b(pkt); mc::step();
    OCtxPacket p(wickr_ctx_parse_packet(r.ctx.get(), b, n.w.d[claimed].pub.get()));
    if (!p) { mc::outcome("malformed"); return; }
    wickr_parse_result_t *pr = p->parse_result; Bytes content = str(p->packet->content); bool known = false;
    for (auto &g : n.g) if (g.sender == claimed && g.content == content) known = true;
    if (pr->signature_status == PACKET_SIGNATURE_VALID) MC_CHECK(known, "valid-signature-on-forgery", "content %s... reported as validly signed by %s, who never signed it", hex(content, 24).c_str(), n.w.d[claimed].name.c_str());
    MC_CHECK(pr->err != E_SUCCESS || pr->signature_status == PACKET_SIGNATURE_VALID, "success-without-signature", "parse succeeded with signature status %d", pr->signature_status);
    MC_CHECK(pr->err == E_SUCCESS || (!pr->key_exchange_set && !pr->key_exchange && !pr->enc_payload), "partial-parse", "failed parse (error %d) hands out parts of the message", pr->err);
    ODecode d(wickr_ctx_decode_packet(r.ctx.get(), p.get(), r.keys[key]->ec_key));
    bool ok = d && d->err == E_SUCCESS;
    if (d) MC_CHECK(ok == (d->decrypted_payload != nullptr) && (ok || !d->payload_key), "decode-shape", "decode error %d, payload %d, key %d", d->err, !!d->decrypted_payload, !!d->payload_key);
    if (!ok) { mc::outcome(pr->err == E_SUCCESS ? "decode-refused" : "parse-refused"); return; }
    MC_CHECK(pr->err == E_SUCCESS && pr->signature_status == PACKET_SIGNATURE_VALID, "decoded-unsigned", "decoded although the parse reported error %d, signature status %d", pr->err, pr->signature_status);
    for (auto &g : n.g) if (g.sender == claimed && g.to.count(reader) && same_payload(g.pl.get(), d->decrypted_payload)) { mc::outcome("genuine"); mc::state(mc::Hash().s(pkt).u(reader).h); return; }
    mc::fail("forged-message-accepted", "%s accepts from %s a message that was never sent to it: body %s", r.name.c_str(), n.w.d[claimed].name.c_str(), hex(str(d->decrypted_payload->body)).c_str());
}

// minimal reader and writer of length-delimited fields 1 and 2
static void put(Bytes &o, int f, const Bytes &v) { o += (char)(f << 3 | 2); size_t n = v.size(); do { o += (char)((n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); o += v; }
static std::pair<Bytes, Bytes> fields(const Bytes &c)
{
    Bytes f[3]; size_t i = 0; while (i < c.size()) { int t = (uint8_t)c[i++] >> 3; size_t n = 0; int sh = 0; while (i < c.size()) { uint8_t x = c[i++]; n |= (size_t)(x & 127) << sh; sh += 7; if (!(x & 128)) break; } if (t < 1 || t > 2 || i + n > c.size()) break; f[t] = c.substr(i, n); i += n; } return { f[1], f[2] };
}
static OKey header_key(const World &w, const wickr_identity_chain_t *c) { return OKey(wickr_cipher_key_create(w.e.default_cipher, w.e.wickr_crypto_engine_digest(c->root->identifier, c->node->identifier, wickr_digest_matching_cipher(w.e.default_cipher)))); }

int main(int argc, char **argv)
{
    mc::init("M02", "model_checking", "every single-bit change, every truncation and extension, every byte value at every position, every splice of two genuine messages, and every recombination of headers, wrapped keys, payloads, signatures, versions and curve bytes of a pool of genuine messages, including re-encryption and re-signing by an outsider", argc, argv);
    rng_install(); rng_seed(mc::seed());
    real.reset(new Net(real_engine())); toy.reset(new Net(toy_engine()));
    for (Net *n : { real.get(), toy.get() }) {
        n->w.account("A", 1); n->w.account("B", 1); n->w.account("C", 1);      // 0: alice, 1: bob, 2: mallory
        for (int v = 2; v <= 4; v++) { send(*n, 0, { 1 }, v, "pay mallory 10"); send(*n, 0, { 1, 2 }, v, "pay mallory 99"); send(*n, 0, { 2 }, v, "only mallory  "); send(*n, 2, { 1 }, v, "from mallory  "); send(*n, 1, { 0, 2 }, v, "from bob      "); }
    }
    mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("byte, splice and recombination spaces use an ideal stand-in for the cryptographic engine; every single-bit change, truncation and extension is also checked with OpenSSL");
    mc::assume("protocol version 2 does not bind the sender's identity into the wrapped key, so re-signing by another account is only required to fail for versions 3 and 4");
    auto find = [](Net &n, int s, int ver, int idx) -> Gen & { int k = 0; for (auto &g : n.g) if (g.sender == s && g.ver == ver && k++ == idx) return g; abort(); };

    mc::part("genuine", [&] { Net &n = mc::flip("engine") ? *real : *toy; int i = mc::choose((int)n.g.size(), "message"), r = mc::choose(3, "reader"), c = mc::choose(3, "claimed"); judge(n, n.g[i].pkt, r, c);
        if (c == n.g[i].sender && n.g[i].to.count(r)) { Exact b(n.g[i].pkt); OCtxPacket p(wickr_ctx_parse_packet(n.w.d[r].ctx.get(), b, n.w.d[c].pub.get())); ODecode d(p ? wickr_ctx_decode_packet(n.w.d[r].ctx.get(), p.get(), n.w.d[r].keys[0]->ec_key) : nullptr); MC_CHECK(d && d->err == E_SUCCESS, "genuine-refused", "genuine message %d refused", i); } });

    auto bitflips = [&](Net &n, int ver) {
        const Bytes &g = find(n, 0, ver, 1).pkt; int pos = mc::choose((int)g.size(), "byte");
        for (int bit = 0; bit < 8; bit++) { Bytes x = g; x[pos] ^= 1 << bit; judge(n, x, 1, 0); } };
    mc::part("bitflip-real", [&] { bitflips(*real, mc::choose(3, "version") + 2); });
    auto cuts = [&](Net &n) {
        int ver = mc::choose(3, "version") + 2; const Bytes &g = find(n, 0, ver, 1).pkt; int op = mc::choose(3, "op");
        if (op == 0) { int len = mc::choose((int)g.size(), "length"); judge(n, g.substr(0, len), 1, 0); judge(n, g.substr(len), 1, 0); }
        else if (op == 1) { int k = mc::choose(mc::tier(64, 400), "extra"); for (int c : { 0, 1, 0x80, 0xff }) judge(n, g + Bytes(k + 1, (char)c), 1, 0); judge(n, g + g.substr(0, k + 1), 1, 0); }
        else { int at = mc::choose((int)g.size(), "at"); for (int c : { 0, 1, 0x80, 0xff }) { Bytes x = g; x.insert(at, 1, (char)c); judge(n, x, 1, 0); } Bytes x = g; x.erase(at, 1); judge(n, x, 1, 0); } };
    mc::part("resize-real", [&] { cuts(*real); });
    mc::part("resize-ideal", [&] { cuts(*toy); });
    // payloads and key lists without authentication are refused, even under keys of an unauthenticated cipher
    mc::part("unauthenticated", [&] { Net &n = *real; int i = mc::choose((int)n.g.size(), "message"), what = mc::choose(2, "part"), how = mc::choose(2, "key"), bit = mc::choose(3, "altered"); Gen &g = n.g[i]; mc::step(); auto f = fields(g.content); (void)f; OKey hk = header_key(n.w, n.w.d[g.sender].pub.get()); OKey &k = what ? hk : g.key; Bytes plain;
        OCipher c; { if (what) { Exact b(g.pkt); OCtxPacket p(wickr_ctx_parse_packet(n.w.d[*g.to.begin()].ctx.get(), b, n.w.d[g.sender].pub.get())); MC_CHECK(p && p->parse_result->key_exchange_set, "genuine-refused", "message %d", i); c.reset(wickr_key_exchange_set_encrypt(p->parse_result->key_exchange_set, &n.w.e, k.get())); } else c.reset(wickr_payload_encrypt(g.pl.get(), &n.w.e, k.get())); MC_CHECK(c, "encrypt", "refused"); }
        auto opens = [&](const wickr_cipher_result_t *x, const wickr_cipher_key_t *key) { if (what) { OKexSet s(wickr_key_exchange_set_create_from_cipher(&n.w.e, x, key)); return (bool)s; } OPayload pl(wickr_payload_create_from_cipher(&n.w.e, x, key)); return (bool)pl; };
        MC_CHECK(opens(c.get(), k.get()), "genuine-refused", "its own encryption is refused"); OCipher dn = downgraded(c.get()); OKey dk = downgraded(k.get()); if (bit) dn->cipher_text->bytes[bit == 1 ? 0 : dn->cipher_text->length - 1] ^= 1; MC_CHECK(!opens(dn.get(), how ? dk.get() : k.get()), "unauthenticated", "the %s of message %d is opened without authentication (%s key)", what ? "key list" : "payload", i, how ? "unauthenticated" : "authenticated"); mc::state(mc::Hash().u(i).u(what).u(how).u(bit).h); mc::outcome("unauthenticated-refused"); }, mc::PartOpts{ .require = { "unauthenticated-refused" } });
    mc::part("bytes", [&] { int ver = mc::choose(3, "version") + 2; const Bytes &g = find(*toy, 0, ver, 1).pkt; int pos = mc::choose((int)g.size(), "byte");
        for (int v = 0; v < 256; v += mc::tier(5, 1)) { Bytes x = g; x[pos] = (char)v; judge(*toy, x, 1, 0); } });
    if (mc::thorough()) mc::part("bitflip-pairs", [&] { const Bytes &g = find(*toy, 0, 4, 1).pkt; int a = mc::choose((int)g.size() * 8, "bit"); for (int b = a + 1; b < (int)g.size() * 8; b++) { Bytes x = g; x[a / 8] ^= 1 << a % 8; x[b / 8] ^= 1 << b % 8; judge(*toy, x, 1, 0); } });
    mc::part("splice", [&] {
        Net &n = *toy; int a = mc::choose((int)n.g.size(), "first"), b = mc::choose((int)n.g.size(), "second"); if (a == b) mc::prune(); const Bytes &p = n.g[a].pkt, &q = n.g[b].pkt; int mode = mc::choose(2, "align");
        for (size_t i = 1; i < p.size(); i += mc::tier(3, 1)) { if (mode == 0 ? i >= q.size() : p.size() - i >= q.size()) continue; Bytes x = p.substr(0, i) + (mode == 0 ? q.substr(i) : q.substr(q.size() - (p.size() - i))); if (x == p || x == q) continue; judge(n, x, 1, n.g[a].sender); judge(n, x, 1, n.g[b].sender); } });
    if (mc::thorough()) mc::part("splice-all-cuts", [&] { Net &n = *toy; const Bytes &p = find(n, 0, 4, 0).pkt, &q = find(n, 0, 4, 1).pkt; int i = mc::choose((int)p.size(), "cut"); for (size_t j = 0; j < q.size(); j++) judge(n, p.substr(0, i) + q.substr(j), 1, 0); });

    // header of X, payload of Y, signature of Z or of the outsider, any version and curve byte
    mc::part("recombine", [&] {
        Net &n = *toy; int N = (int)n.g.size(); int x = mc::choose(N, "header-of"), y = mc::choose(N, "payload-of"); int hdr = mc::choose(2, "header-key");   // 1: re-encrypted for the outsider as sender
        Gen &X = n.g[x], &Y = n.g[y]; Bytes h = fields(X.content).first, pl = fields(Y.content).second;
        if (hdr) { Exact hb(h); OCipher hc(wickr_cipher_result_from_buffer(hb)); OKey k = header_key(n.w, n.w.d[X.sender].pub.get()), k2 = header_key(n.w, n.w.d[2].pub.get()); OKexSet s(hc ? wickr_key_exchange_set_create_from_cipher(&n.w.e, hc.get(), k.get()) : nullptr); if (!s) { mc::outcome("header-unreadable"); return; }
            // optionally relabel the entries, or take the ephemeral public key of another message
            int m = mc::choose(3, "header-edit"); if (m == 1) { wickr_key_exchange_t *e0 = wickr_exchange_array_fetch_item(s->exchanges, 0); wickr_buffer_destroy(&e0->exchange_id); e0->exchange_id = wickr_buffer_copy(n.w.d[1].ctx->id_chain->node->identifier); }
            if (m == 2) { Exact yb(fields(Y.content).first); OCipher yc(wickr_cipher_result_from_buffer(yb)); OKey ky = header_key(n.w, n.w.d[Y.sender].pub.get()); OKexSet t(yc ? wickr_key_exchange_set_create_from_cipher(&n.w.e, yc.get(), ky.get()) : nullptr); if (t) std::swap(s->sender_pub, t->sender_pub); }
            OCipher out(wickr_key_exchange_set_encrypt(s.get(), &n.w.e, k2.get())); if (!out) mc::prune(); h = take(wickr_cipher_result_serialize(out.get())); }
        Bytes content; put(content, 1, h); put(content, 2, pl); Exact cb(content);
        std::vector<Bytes> sigs; for (auto &g : n.g) { Exact gb(g.pkt); OPacket p(wickr_packet_create_from_buffer(gb)); if (p) sigs.push_back(take(wickr_ecdsa_result_serialize(p->signature))); }
        { OSig s(wickr_identity_sign(n.w.d[2].ctx->id_chain->node, &n.w.e, cb)); MC_CHECK(s, "sign", "outsider cannot sign"); sigs.push_back(take(wickr_ecdsa_result_serialize(s.get()))); }
        for (int ver = 2; ver <= 4; ver++) for (size_t s = 0; s < sigs.size(); s++) for (int cu = 0; cu < 2; cu++) {
            bool own = s + 1 == sigs.size();
            if (own) { // an insider signing its own message: a genuine one only if nothing was borrowed
                if (cu) continue; Bytes pk; pk += (char)ver; pk += (char)EC_CURVE_ID_NIST_P521; pk += content + sigs[s]; Exact b(pk); mc::step();
                OCtxPacket p(wickr_ctx_parse_packet(n.w.d[1].ctx.get(), b, n.w.d[2].pub.get())); ODecode d(p ? wickr_ctx_decode_packet(n.w.d[1].ctx.get(), p.get(), n.w.d[1].keys[0]->ec_key) : nullptr);
                bool ok = d && d->err == E_SUCCESS; if (!ok) { mc::outcome("resigned-refused"); continue; }
                if (X.sender == 2 && Y.sender == 2) { mc::outcome("resigned-own"); continue; }
                if (ver == 2) { mc::outcome("resigned-v2"); continue; }
                mc::fail("resigned-accepted", "bob accepts mallory's re-signed copy of a message by %s (version %d)", n.w.d[Y.sender].name.c_str(), ver);
            } else { Bytes pk; pk += (char)ver; pk += (char)(cu ? 0xF0 | EC_CURVE_ID_NIST_P521 : EC_CURVE_ID_NIST_P521); pk += content + sigs[s]; for (int cl = 0; cl < 3; cl++) judge(n, pk, 1, cl); }
        }
    });
    // whole signed contents under every version and curve byte, with every signature
    mc::part("relabel", [&] {
        Net &n = *toy; int i = mc::choose((int)n.g.size(), "content"), z = mc::choose((int)n.g.size(), "signature"); const Bytes &sp = n.g[z].pkt; Bytes sig = sp.substr(2 + n.g[z].content.size());
        for (int ver = 0; ver < 256; ver += (ver < 8 ? 1 : 31)) for (int cu = 0; cu < 256; cu += (cu < 16 ? 1 : 15)) { Bytes pk; pk += (char)ver; pk += (char)cu; pk += n.g[i].content + sig; judge(n, pk, 1, n.g[i].sender); } });
    return mc::finish();
}
