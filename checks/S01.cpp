// S01: stream keys ratchet identically on both ends and never go back
#include "strm.hpp"
#include "chan.hpp"
struct Sent { uint64_t seq; Bytes data, aad; OCipher c; };
static const std::vector<uint32_t> PPE = { 1, 2, 3, 5, 512, 32768 };

int main(int argc, char **argv)
{
    mc::init("S01", "model_checking", "every sequence of encode calls up to the depth with the packet number advanced by every step of a set around the period length (including refused ones), every subset of the packets delivered, each also presented in every wrong way; compared with an independent key schedule", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); spy = Spy(); });
    mc::assume("a packet presented under a different number of its own period with the same associated data is bound by the associated data (the transport puts the number there), as the interface says");

    auto run = [&](const wickr_crypto_engine_t &e, bool real) {
        uint32_t ppe = PPE[mc::choose((int)PPE.size(), "ppe")]; int depth = real ? mc::tier(3, 4) : mc::tier(4, 6);
        Pair p = mk_pair(e, ppe); std::vector<Sent> sent; uint64_t last = 0, dlast = 0;
        std::vector<uint64_t> steps = { 1, 2, ppe, 2ull * ppe + 1 }; if (ppe > 2) { steps.push_back(ppe - 1); steps.push_back(ppe + 1ull); }
        for (int i = 0; i < depth; i++) {
            for (uint64_t n : { last, last ? last - 1 : 0, (uint64_t)0 }) { uint64_t before = p.enc->last_seq; OCipher c = enc(p.enc, "late", "", n); MC_CHECK(!c && p.enc->last_seq == before, "number-reused", "ppe %u: encoding under number %lu after %lu gave a packet", ppe, (unsigned long)n, (unsigned long)last); }
            int k = mc::choose((int)steps.size(), "advance"); mc::step();
            uint64_t n = last + steps[k]; Sent s; s.seq = n; s.data = pat(7 + 13 * (i % 3), (int)n); s.aad = (n + i) % 2 ? "aad" + std::to_string(n) : ""; s.c = enc(p.enc, s.data, s.aad, n);
            MC_CHECK(s.c, "encode-refused", "ppe %u: encoding under number %lu after %lu refused", ppe, (unsigned long)n, (unsigned long)last); last = n; MC_CHECK(p.enc->last_seq == n, "position", "position %lu after encoding %lu", (unsigned long)p.enc->last_seq, (unsigned long)n);
            uint64_t per = n / ppe; mc::outcome(k == 0 ? "next" : "gap");
            MC_CHECK(p.ref->opens(per, s.c.get(), s.aad, s.data), "wrong-period-key", "ppe %u: packet %lu is not protected by the key of period %lu", ppe, (unsigned long)n, (unsigned long)per);
            if (per) MC_CHECK(!p.ref->opens(per - 1, s.c.get(), s.aad, s.data), "old-key", "packet %lu opens with an older key", (unsigned long)n);
            MC_CHECK(s.c->iv->length == s.c->cipher.iv_len, "nonce-length", "nonce has %zu bytes", s.c->iv->length);
            sent.push_back(std::move(s)); Sent &t = sent.back();
            mc::state(mc::Hash().u(ppe).u(last).u(dlast).u(depth - i).h);
            if (!mc::choose(2, "deliver")) continue;
            // wrong presentations, each on a copy of the receiver
            auto wrong = [&](const char *what, const wickr_cipher_result_t *c, const Bytes &aad, uint64_t seq) { OStream d(wickr_stream_ctx_copy(p.dec.get())); OBuf r = dec(d, c, aad, seq); MC_CHECK(!r, "wrong-accepted", "ppe %u: packet %lu accepted %s", ppe, (unsigned long)n, what); };
            wrong("with other associated data", t.c.get(), t.aad + "x", n); if (!t.aad.empty()) wrong("without its associated data", t.c.get(), "", n);
            wrong("under a number of the next period", t.c.get(), t.aad, n + ppe); wrong("two periods ahead", t.c.get(), t.aad, n + 2ull * ppe); if (per > dlast / ppe && per * ppe > dlast + 1) wrong("under a number of the period before", t.c.get(), t.aad, per * ppe - 1);
            for (int f = 0; f < 3; f++) { OCipher c(wickr_cipher_result_copy(t.c.get())); wickr_buffer_t *b = f == 0 ? c->iv : f == 1 ? c->cipher_text : c->auth_tag; b->bytes[b->length / 2] ^= 8; wrong(f == 0 ? "with an altered nonce" : f == 1 ? "with altered bytes" : "with an altered tag", c.get(), t.aad, n); }
            wrong("under number 0", t.c.get(), t.aad, 0); wrong("under the last number", t.c.get(), t.aad, dlast);
            OBuf r = dec(p.dec, t.c.get(), t.aad, n); MC_CHECK(r && is(r.get(), t.data), "not-recovered", "ppe %u: packet %lu (last received %lu) decodes to %s", ppe, (unsigned long)n, (unsigned long)dlast, r ? "other data" : "nothing"); dlast = n;
            MC_CHECK(p.dec->last_seq == n, "position", "receiver position %lu after decoding %lu", (unsigned long)p.dec->last_seq, (unsigned long)n);
            // once received, nothing received or skipped so far is accepted again
            for (auto &o : sent) { OStream d(wickr_stream_ctx_copy(p.dec.get())); OBuf q = dec(d, o.c.get(), o.aad, o.seq); MC_CHECK(!q, "replay-accepted", "ppe %u: packet %lu accepted after %lu was received", ppe, (unsigned long)o.seq, (unsigned long)dlast); }
        }
        // the ends now hold the keys of their positions, and nothing from which an older key could be read
        const RefKey &ke = p.ref->of(last), &kd = p.ref->of(dlast); MC_CHECK(is(p.enc->key->cipher_key->key_data, ke.key) && is(p.dec->key->cipher_key->key_data, kd.key), "wrong-period-key", "ppe %u: keys held at %lu / %lu differ from the schedule", ppe, (unsigned long)last, (unsigned long)dlast);
        MC_CHECK(is(p.enc->key->evolution_key, ke.evo) && is(p.dec->key->evolution_key, kd.evo), "wrong-period-key", "evolution keys differ from the schedule"); };
    mc::part("history", [&] { run(toy_engine(), false); });
    mc::part("history-real", [&] { run(real_engine(), true); });
    // gaps of very many periods: counts and numbers beyond every narrower integer type
    mc::part("far", [&] { struct J { uint32_t ppe; uint64_t to; }; static const std::vector<J> js = { { 1, 255 }, { 1, 256 }, { 1, 257 }, { 2, 512 }, { 1, 65535 }, { 1, 65536 }, { 1, 65537 }, { 3, 3 * 65536 }, { 512, 512 * 256 }, { 32768, 32768ull * 256 }, { 32768, 1ull << 31 }, { 32768, (1ull << 32) - 1 }, { 32768, 1ull << 32 }, { 32768, (1ull << 32) + 32769 } };
        J j = mc::pick(js, "jump"); if (!mc::thorough() && j.to > (1ull << 31) && j.to < (1ull << 32)) return; int first = mc::choose(2, "first"); Pair p = mk_pair(toy_engine(), j.ppe); uint64_t at = 0; if (first) { OCipher c = enc(p.enc, "one", "", 1); OBuf d = dec(p.dec, c.get(), "", 1); MC_CHECK(d, "not-recovered", "packet 1"); at = 1; } uint64_t to = at + j.to; mc::step();
        OCipher c = enc(p.enc, "far", "aad", to); MC_CHECK(c, "encode-refused", "ppe %u: packet %lu", j.ppe, (unsigned long)to); uint64_t per = to / j.ppe; mc::outcome("jumped");
        Bytes key = p.ref->of(to).key, evo = p.ref->of(to).evo; MC_CHECK(is(p.enc->key->cipher_key->key_data, key) && is(p.enc->key->evolution_key, evo), "wrong-period-key", "ppe %u: after a gap to packet %lu the sender does not hold the key of period %lu", j.ppe, (unsigned long)to, (unsigned long)per);
        if (to > 0xffffffffull) { OStream w(wickr_stream_ctx_copy(p.dec.get())); if ((uint32_t)to > at) { OBuf r = dec(w, c.get(), "aad", (uint32_t)to); MC_CHECK(!r, "wrong-accepted", "packet %lu accepted as %u", (unsigned long)to, (uint32_t)to); } }
        OBuf d = dec(p.dec, c.get(), "aad", to); MC_CHECK(d && is(d.get(), "far"), "not-recovered", "ppe %u: packet %lu after a gap of %lu periods", j.ppe, (unsigned long)to, (unsigned long)per); MC_CHECK(is(p.dec->key->cipher_key->key_data, key), "wrong-period-key", "receiver at %lu", (unsigned long)to);
        OCipher c2 = enc(p.enc, "next", "", to + 1); OBuf d2 = dec(p.dec, c2.get(), "", to + 1); MC_CHECK(d2 && is(d2.get(), "next"), "not-recovered", "packet after the gap"); OBuf d3 = dec(p.dec, c.get(), "aad", to); MC_CHECK(!d3, "replay-accepted", "packet %lu accepted twice", (unsigned long)to); OCipher c3 = enc(p.enc, "low", "", (uint32_t)(to + 2)); if (to > 0xffffffffull) MC_CHECK(!c3, "number-reused", "a number below the last was accepted"); }, mc::PartOpts{ .require = { "jumped" } });
    // long runs without gaps, and wrong direction / wrong arguments
    mc::part("long-run", [&] { uint32_t ppe = mc::pick(std::vector<uint32_t>{ 1, 2, 7, 64 }, "ppe"); Pair p = mk_pair(toy_engine(), ppe); int n = mc::tier(300, 5000); uint64_t st = mc::choose(3, "stride") + 1; uint64_t s = 0; std::set<Bytes> keys;
        for (int i = 0; i < n; i++) { s += st; OCipher c = enc(p.enc, "x", "", s); mc::step(); OBuf d = dec(p.dec, c.get(), "", s); MC_CHECK(d && is(d.get(), "x"), "not-recovered", "ppe %u: packet %lu of a long run", ppe, (unsigned long)s); MC_CHECK(is(p.dec->key->cipher_key->key_data, p.ref->of(s).key), "wrong-period-key", "ppe %u at %lu", ppe, (unsigned long)s); keys.insert(str(p.dec->key->cipher_key->key_data)); } 
        MC_CHECK(keys.size() == s / ppe + 1 - (st > ppe ? 0 : 0) || st > ppe || keys.size() == s / ppe, "keys-repeat", "%zu distinct keys over %lu periods", keys.size(), (unsigned long)(s / ppe + 1)); });
    mc::part("arguments", [&] { wickr_crypto_engine_t e = mc::flip("engine") ? real_engine() : toy_engine(); Pair p = mk_pair(e, 2); int k = mc::choose(8, "case"); mc::step(); OCipher c = enc(p.enc, "d", "", 1); MC_CHECK(c, "encode-refused", "first packet"); static const Bytes D = "d", F = "forged"; wickr_buffer_t x = view(D);
        if (k == 0) { OCipher r(wickr_stream_ctx_encode(p.dec.get(), &x, nullptr, 9)); MC_CHECK(!r, "direction", "a receiving stream encoded"); }
        if (k == 1) { OBuf r(wickr_stream_ctx_decode(p.enc.get(), c.get(), nullptr, 9)); MC_CHECK(!r, "direction", "a sending stream decoded"); }
        if (k == 2) { OCipher r(wickr_stream_ctx_encode(p.enc.get(), nullptr, nullptr, 9)); MC_CHECK(!r, "argument", "no data"); } if (k == 3) { OBuf r(wickr_stream_ctx_decode(p.dec.get(), nullptr, nullptr, 9)); MC_CHECK(!r, "argument", "no packet"); }
        if (k == 4) { OStream s(wickr_stream_ctx_create(e, nullptr, STREAM_DIRECTION_ENCODE)); MC_CHECK(!s, "argument", "stream without a key"); }
        if (k == 5) { wickr_stream_key_t *sk = wickr_stream_key_create_rand(e, CIPHER_AES256_CTR, 4); wickr_stream_ctx_t *s = sk ? wickr_stream_ctx_create(e, sk, mc::flip("dir") ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE) : nullptr; MC_CHECK(!s, "unauthenticated-stream", "a stream over an unauthenticated cipher was created"); wickr_stream_key_destroy(&sk); }
        if (k == 6) { for (uint32_t n : { 0u, 32769u, 0xffffffffu }) { OSKey s(wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, n)); MC_CHECK(!s, "period-range", "period length %u accepted", n); } }
        if (k == 7) { OKey ctr(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_CTR)); OKey fake(wickr_cipher_key_create(CIPHER_AES256_CTR, wickr_buffer_copy(p.dec->key->cipher_key->key_data))); wickr_buffer_t pt = view(F); OCipher f(e.wickr_crypto_engine_cipher_encrypt(&pt, nullptr, fake.get(), nullptr)); OBuf r(wickr_stream_ctx_decode(p.dec.get(), f.get(), nullptr, 1)); MC_CHECK(!r, "unauthenticated-stream", "an unauthenticated packet was accepted"); } });
    // the two streams of a channel evolve with the period the channel was set up with, in both directions and on both ends
    mc::part("channel", [&] { static const std::vector<uint32_t> EV = { 1, 2, 3, 7, 0, 1000 }; uint32_t ev = mc::pick(EV, "evolution count"), ppe = ev ? ev : 512; bool pinned = mc::flip("pinned"), swap = mc::flip("b starts"); int via = mc::choose(3, "continue on copies"); wickr_crypto_engine_t e = spy_engine(toy_engine());
        OChain ia(mk_chain(e, "alice", Bytes(32, 'a'))), ib(mk_chain(e, "bob", Bytes(32, 'b'))); Chan c(e, ia.get(), ib.get(), ev, pinned); if (swap) c.swap(); MC_CHECK(c.connect(), "channel", "the channel is not established");
        std::vector<std::pair<Bytes, Bytes>> encs; spy.encrypted = [&](const wickr_cipher_key_t *k, const wickr_cipher_result_t *r, const wickr_buffer_t *) { encs.push_back({ str(k->key_data), str(r->iv) }); };
        std::map<Bytes, int> keys[2]; std::map<uint64_t, Bytes> of[2]; int n = (int)std::min<uint32_t>(3 * ppe + 3, 1600);
        for (int i = 0; i < n; i++) for (int d = 0; d < 2; d++) { Endpoint &s = d ? c.b : c.a, &r = d ? c.a : c.b; if (via && i == (int)ppe - (via == 2)) for (Endpoint *x : { &c.a, &c.b }) { OTrans k(wickr_transport_ctx_copy(x->t.get())); MC_CHECK(k, "channel", "not copied"); x->t = std::move(k); wickr_transport_ctx_set_user_ctx(x->t.get(), x); }
            encs.clear(); size_t o = s.out.size(), g = r.got.size(); s.send("m" + std::to_string(i)); MC_CHECK(s.out.size() == o + 1 && encs.size() == 1, "channel", "packet %d gave %zu packets and %zu encryptions", i, s.out.size() - o, encs.size()); Exact p(s.out.back()); OTPkt pk(wickr_transport_packet_create_from_buffer(p)); MC_CHECK(pk, "channel", "packet not readable"); uint64_t seq = pk->meta.body_meta.data.sequence_number, per = seq / ppe; Bytes k = encs[0].first;
            auto it = of[d].find(per); if (it == of[d].end()) { MC_CHECK(!keys[d].count(k) && !keys[!d].count(k), "wrong-period-key", "evolution count %u, %s: packet %lu (period %lu) reuses an older key", ev, d ? "b to a" : "a to b", (unsigned long)seq, (unsigned long)per); of[d][per] = k; keys[d][k] = (int)per; } else MC_CHECK(it->second == k, "wrong-period-key", "evolution count %u, %s: packet %lu has another key than its period %lu began with", ev, d ? "b to a" : "a to b", (unsigned long)seq, (unsigned long)per);
            c.pump(); mc::step(); MC_CHECK(r.got.size() == g + 1 && r.got.back() == "m" + std::to_string(i), "not-recovered", "evolution count %u, %s: packet %lu", ev, d ? "b to a" : "a to b", (unsigned long)seq); }
        mc::outcome(keys[0].size() > 1 && keys[1].size() > 1 ? "evolved" : "one period"); mc::state(mc::Hash().u(ev).u(pinned).u(swap).u(via).h); spy = Spy(); }, mc::PartOpts{ .require = { "evolved" } });
    // transferring the key through its serialised form or copies gives the same stream
    mc::part("transfer", [&] { wickr_crypto_engine_t e = toy_engine(); uint32_t ppe = mc::choose(3, "ppe") + 1; OSKey k(wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, ppe)); int via = mc::choose(3, "via"), at = mc::choose(4, "at"); OStream a(wickr_stream_ctx_create(e, wickr_stream_key_copy(k.get()), STREAM_DIRECTION_ENCODE)); wickr_stream_key_t *k2 = wickr_stream_key_copy(k.get()); if (via == 1) { OBuf b(wickr_stream_key_serialize(k.get())); wickr_stream_key_destroy(&k2); k2 = wickr_stream_key_create_from_buffer(b.get()); } OStream b(wickr_stream_ctx_create(e, k2, STREAM_DIRECTION_DECODE)); MC_CHECK(a && b, "transfer", "stream not created");
        for (int i = 0; i < 8; i++) { if (via == 2 && i == at) { OStream a2(wickr_stream_ctx_copy(a.get())), b2(wickr_stream_ctx_copy(b.get())); a = std::move(a2); b = std::move(b2); } uint64_t s = 1 + i * (mc::thorough() ? 2 : 1); OCipher c = enc(a, "m" + std::to_string(i), "", s); mc::step(); OBuf d = dec(b, c.get(), "", s); MC_CHECK(d && is(d.get(), "m" + std::to_string(i)), "not-recovered", "packet %lu after transfer", (unsigned long)s); } });
    return mc::finish();
}
