// S02: a packet that is refused leaves the receiving stream unharmed
#include "strm.hpp"
struct Sent { uint64_t seq; Bytes data, aad; OCipher c; };
struct Stage { Pair p; std::vector<Sent> v; };
enum { F_FLIP_CT, F_FLIP_TAG, F_FLIP_IV, F_AAD, F_AHEAD0, F_AHEAD1, F_AHEAD2, F_BEHIND, F_RANDOM, F_CTR, F_EMPTY, F_ENGINE, F_N };
static const char *FN[] = { "altered bytes", "altered tag", "altered nonce", "other associated data", "genuine bytes under the next number", "genuine bytes one period ahead", "genuine bytes five periods ahead", "replay", "random bytes under the next number", "unauthenticated", "no packet", "failing primitive" };

int main(int argc, char **argv)
{
    mc::init("S02", "model_checking", "every history, up to the depth, of genuine deliveries (with gaps) and refused packets of 12 kinds at a receiving stream, followed by every remaining genuine packet; compared with a reference receiver that never saw the refused packets", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    static bool failing = false; static uint64_t hmacs = 0;
    auto history = [&](const wickr_crypto_engine_t &base, int depth) {
        wickr_crypto_engine_t e = spy_engine(base); failing = false; static int fail_kind; spy.before = [](int k) { return !(failing && k == fail_kind); };
        uint32_t ppe = mc::pick(std::vector<uint32_t>{ 1, 2, 3, 512 }, "ppe"); bool wide = mc::choose(2, "spacing") == 1; Pair p = mk_pair(e, ppe); std::vector<Sent> v; uint64_t seq = 0;
        for (int i = 0; i < 5; i++) { seq += wide ? (i % 2 ? ppe : 1) : 1; Sent s; s.seq = seq; s.data = "packet " + std::to_string(i); s.aad = i % 2 ? "a" : ""; s.c = enc(p.enc, s.data, s.aad, seq); MC_CHECK(s.c, "encode", "encode"); v.push_back(std::move(s)); }
        uint64_t last = 0; size_t next = 0; std::string hist;
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(F_N + 2, "op"); mc::step();
            if (op >= F_N) { size_t j = next + (op - F_N); if (j >= v.size()) mc::prune(); OBuf r = dec(p.dec, v[j].c.get(), v[j].aad, v[j].seq); hist += "genuine #" + std::to_string(v[j].seq) + "; "; mc::outcome("genuine"); MC_CHECK(r && is(r.get(), v[j].data), "harmed", "ppe %u: genuine packet %lu refused after: %s", ppe, (unsigned long)v[j].seq, hist.c_str()); last = v[j].seq; next = j + 1; }
            else {
                if (next >= v.size()) mc::prune(); Sent &g = v[next]; OCipher c(wickr_cipher_result_copy(g.c.get())); uint64_t n = g.seq; Bytes aad = g.aad; const wickr_cipher_result_t *use = c.get(); hist += std::string(FN[op]) + "; "; mc::outcome("refused");
                switch (op) {
                case F_FLIP_CT: c->cipher_text->bytes[0] ^= 1; break; case F_FLIP_TAG: c->auth_tag->bytes[0] ^= 1; break; case F_FLIP_IV: c->iv->bytes[0] ^= 1; break; case F_AAD: aad += "z"; break;
                case F_AHEAD0: n = g.seq + 1; aad += std::to_string(n); break; case F_AHEAD1: n = g.seq + ppe; break; case F_AHEAD2: n = g.seq + 5ull * ppe; break;
                case F_BEHIND: if (!next) mc::prune(); c.reset(wickr_cipher_result_copy(v[next - 1].c.get())); use = c.get(); n = v[next - 1].seq; aad = v[next - 1].aad; if (n > last) mc::prune(); break;
                case F_RANDOM: { Bytes r = pat(c->cipher_text->length, i); memcpy(c->cipher_text->bytes, r.data(), r.size()); break; }
                case F_CTR: c->cipher = CIPHER_AES256_CTR; wickr_buffer_destroy(&c->auth_tag); break;
                case F_EMPTY: use = nullptr; break;
                case F_ENGINE: { bool evolves = n / ppe != last / ppe; fail_kind = evolves && mc::choose(2, "which") ? EC_HMAC : EC_DEC; failing = true; break; } }
                OBuf r = dec(p.dec, use, aad, n); failing = false; MC_CHECK(!r, "accepted", "ppe %u: accepted: %s", ppe, hist.c_str());
            }
            mc::state(mc::Hash().u(ppe).u(wide).u(last).u(next).s(hist).h);
            MC_CHECK(p.dec->last_seq == last, "position", "ppe %u: position %lu, last successfully decoded %lu, after: %s", ppe, (unsigned long)p.dec->last_seq, (unsigned long)last, hist.c_str());
        }
        for (; next < v.size(); next++) { OBuf r = dec(p.dec, v[next].c.get(), v[next].aad, v[next].seq); MC_CHECK(r && is(r.get(), v[next].data), "harmed", "ppe %u: genuine packet %lu refused after: %s", ppe, (unsigned long)v[next].seq, hist.c_str()); } };
    mc::part("history", [&] { history(toy_engine(), mc::tier(4, 5)); });
    mc::part("history-real", [&] { history(real_engine(), mc::tier(2, 3)); });
    // a flood of refused packets, all of one kind or of all in turn, with genuine ones in between
    mc::part("flood", [&] {
        wickr_crypto_engine_t e = toy_engine(); uint32_t ppe = mc::pick(std::vector<uint32_t>{ 1, 3, 512 }, "ppe"); int kind = mc::choose(7, "kind"), every = mc::pick(std::vector<int>{ 1, 7, 64, mc::tier(330, 5000) }, "refused in a row"), total = mc::tier(330, 5000); Pair p = mk_pair(e, ppe); uint64_t seq = 0, last = 0; OCipher old; Bytes data; OCipher next = enc(p.enc, data = "packet 1", "a", ++seq);
        for (int i = 0; i < total; i++) {
            int k = kind == 6 ? i % 6 : kind; OCipher c(wickr_cipher_result_copy(next.get())); uint64_t n = seq; Bytes aad = "a"; mc::step();
            switch (k) { case 0: c->cipher_text->bytes[i % c->cipher_text->length] ^= 1; break; case 1: c->auth_tag->bytes[i % 16] ^= 0x80; break; case 2: aad += "z"; break; case 3: n = seq + 1 + i % 40; aad += "y"; break; case 4: if (old) { c.reset(wickr_cipher_result_copy(old.get())); n = last; } else n = 0; break; case 5: { Bytes r = pat(c->cipher_text->length, i + 1); memcpy(c->cipher_text->bytes, r.data(), r.size()); break; } }
            OBuf r = dec(p.dec, c.get(), aad, n); MC_CHECK(!r, "accepted", "ppe %u: refused packet %d of kind %d is accepted", ppe, i, k); MC_CHECK(p.dec->last_seq == last, "position", "ppe %u: position %llu, last successfully decoded %llu, after %d refused packets", ppe, (unsigned long long)p.dec->last_seq, (unsigned long long)last, i + 1);
            if ((i + 1) % every == 0) { OBuf g = dec(p.dec, next.get(), "a", seq); MC_CHECK(g && is(g.get(), data), "harmed", "ppe %u: genuine packet %llu refused after %d refused packets of kind %d", ppe, (unsigned long long)seq, i + 1, kind); last = seq; old = std::move(next); data = "packet " + std::to_string(i); next = enc(p.enc, data, "a", ++seq); MC_CHECK(next, "encode", "encode"); }
        }
        mc::outcome("refused"); mc::state(mc::Hash().u(ppe).u(kind).u(every).h); }, mc::PartOpts{ .require = { "refused" } });
    // the sending side: a failing primitive does not move the position, and the next packet is received
    mc::part("sender", [&] { wickr_crypto_engine_t e = spy_engine(toy_engine()); failing = false; static int at, fk; static int seen; spy.before = [](int k) { return !(failing && k == fk && seen++ == at); }; uint32_t ppe = mc::choose(3, "ppe") + 1; fk = mc::choose(2, "kind") ? EC_HMAC : EC_ENC; at = mc::choose(3, "which"); seen = 0; Pair p = mk_pair(e, ppe); uint64_t last = 0; int when = mc::choose(4, "when"), gap = mc::choose(3, "gap") + 1;
        for (int i = 0; i < 5; i++) { failing = i == when; uint64_t n = last + gap; OCipher c = enc(p.enc, "m", "", n); failing = false; mc::step(); if (!c) { MC_CHECK(p.enc->last_seq == last, "position", "a failed encode moved the position from %lu to %lu", (unsigned long)last, (unsigned long)p.enc->last_seq); mc::outcome("failed"); c = enc(p.enc, "m", "", n); MC_CHECK(c, "harmed", "ppe %u: number %lu unusable after a failure", ppe, (unsigned long)n); } OBuf d = dec(p.dec, c.get(), "", n); MC_CHECK(d && is(d.get(), "m"), "harmed", "ppe %u: packet %lu not received after a failed encode", ppe, (unsigned long)n); last = n; } });
    // packets without authentication are refused, and no stream is made with keys of an unauthenticated cipher
    mc::part("unauthenticated", [&] { wickr_crypto_engine_t e = real_engine(); uint32_t ppe = mc::choose(3, "ppe") + 1; int how = mc::choose(2, "keys"), gap = mc::choose(4, "gap") + 1, bit = mc::choose(2, "altered"); mc::step(); if (how) { OSKey k(wickr_stream_key_create_rand(e, CIPHER_AES256_CTR, ppe)); if (k) for (auto dir : { STREAM_DIRECTION_ENCODE, STREAM_DIRECTION_DECODE }) { wickr_stream_key_t *kc = wickr_stream_key_copy(k.get()); OStream s(wickr_stream_ctx_create(e, kc, dir)); if (!s) wickr_stream_key_destroy(&kc); MC_CHECK(!s, "unauthenticated", "a stream without authentication can be made"); } mc::outcome("unauthenticated"); return; } Pair p = mk_pair(e, ppe); OCipher c = enc(p.enc, "message", "", gap); { MC_CHECK(c, "encode", "refused"); OCipher x = downgraded(c.get()); if (bit) x->cipher_text->bytes[0] ^= 1; OBuf d = dec(p.dec, x.get(), "", gap); MC_CHECK(!d, "accepted", "ppe %u: a packet stripped of its authentication is accepted", ppe); MC_CHECK(p.dec->last_seq == 0, "position", "moved"); OBuf d2 = dec(p.dec, c.get(), "", gap); MC_CHECK(d2 && is(d2.get(), "message"), "harmed", "genuine packet refused"); mc::outcome("stripped"); }
        mc::state(mc::Hash().u(ppe).u(how).u(gap).u(bit).h); }, mc::PartOpts{ .require = { "stripped", "unauthenticated" } });
    // work caused by one forged packet: bounded?
    mc::part("ahead", [&] { wickr_crypto_engine_t e = spy_engine(toy_engine()); hmacs = 0; spy.before = [](int k) { return !(k == EC_HMAC && ++hmacs > 200000); }; uint32_t ppe = mc::pick(std::vector<uint32_t>{ 1, 512, 32768 }, "ppe"); int sh = mc::pick(std::vector<int>{ 20, 33, 40, 63 }, "distance"); Pair p = mk_pair(e, ppe); OCipher c = enc(p.enc, "m", "", 1); OCipher f(wickr_cipher_result_copy(c.get())); f->auth_tag->bytes[0] ^= 1; hmacs = 0; mc::step();
        OBuf r = dec(p.dec, f.get(), "", 1ull << sh); MC_CHECK(!r, "accepted", "forged packet accepted"); if (hmacs > 200000) mc::known_or_fail("unbounded-evolution", "one forged packet numbered 2^%d makes the receiver (ppe %u) derive more than 200000 keys (the loop is cut here by a failing primitive)", sh, ppe);
        spy.before = nullptr; OBuf d = dec(p.dec, c.get(), "", 1); MC_CHECK(d && is(d.get(), "m"), "harmed", "ppe %u: the genuine first packet is refused after a forged one numbered 2^%d", ppe, sh); });
    return mc::finish();
}
