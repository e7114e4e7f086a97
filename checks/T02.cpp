// T02: an active channel delivers a faithful in-order prefix-with-gaps of what was sent
#include "chan.hpp"
static std::vector<OChain> ids; static wickr_crypto_engine_t TOY, REAL;
static std::vector<OChain> rids;
struct Sess { std::unique_ptr<Chan> c; };
static Bytes other[2][2];
static Chan *open(bool real, uint32_t ppe, bool pinned, bool swap) { auto &v = real ? rids : ids; Chan *c = new Chan(real ? REAL : TOY, v[0].get(), v[1].get(), ppe, pinned); if (swap) c->swap(); if (!c->connect()) mc::fail("setup", "the channel could not be set up"); return c; }
enum { A_REPLAY, A_OLDER, A_REFLECT, A_OTHER, A_OTHERDIR, A_SEQ_UP, A_SEQ_DOWN, A_SEQ_PERIOD, A_TYPE, A_MAC, A_CIPHER, A_IV, A_BODY, A_TAG, A_CUT1, A_CUTHALF, A_HEADONLY, A_EXTEND, A_CROSS, A_HS_START, A_HS_RESP, A_EMPTY, A_GARBAGE, A_SIGNED, A_BIGSEQ0, A_N };
static const char *AN[] = { "replay of the last delivered", "replay of the first", "reflected", "from another session of the same parties", "other session, other direction", "number raised", "number lowered", "number raised by a period", "marked as a handshake", "other protection type", "other cipher", "altered nonce", "altered body", "altered tag", "last byte cut", "cut in half", "header only", "one byte appended", "header of one, body of another", "handshake start replayed", "handshake response replayed", "empty", "garbage", "marked as signed", "number 0" };

int main(int argc, char **argv)
{
    mc::init("T02", "model_checking", "every schedule, up to the depth, of sending in both directions and of the network delivering, dropping, replaying, reflecting, splicing from another session and altering (25 kinds) packets of an active channel; compared with the sequence sent", argc, argv);
    rng_install(); rng_seed(mc::seed()); TOY = toy_engine(); REAL = real_engine();
    for (auto n : { "alice", "bob" }) { ids.emplace_back(mk_chain(TOY, n, Bytes(32, n[0]))); rids.emplace_back(mk_chain(REAL, n, Bytes(32, n[0]))); }
    for (int r = 0; r < 2; r++) { Chan c(r ? REAL : TOY, (r ? rids : ids)[0].get(), (r ? rids : ids)[1].get(), 1, true); if (!c.connect()) continue; c.a.send("other session"); c.b.send("other session"); other[r][0] = c.a.out.back(); other[r][1] = c.b.out.back(); }
    mc::on_exec([] { rng_seed(mc::seed() + 7); });
    auto run = [&](bool real, int depth, bool attacks) {
        int cfg = mc::choose(real ? 2 : mc::tier(attacks ? 2 : 8, 8), "configuration"); uint32_t ppe = (cfg & 1) + 1; bool swap = attacks && mc::tier(1, 0) ? cfg & 1 : (cfg >> 1) & 1, pinned = attacks && mc::tier(1, 0) ? !(cfg & 1) : (cfg >> 2) & 1; std::unique_ptr<Chan> c(open(real, ppe, pinned, swap));
        Endpoint *ep[2] = { &c->a, &c->b };
        struct Dir { std::vector<Bytes> plain, pkt; int last = -1; bool dead = false; size_t expect = 0; std::vector<Bytes> want; } d[2];   // d[0]: a to b
        const Bytes *ob = other[real];
        auto send = [&](int w, const Bytes &m) { size_t n = ep[w]->out.size(); ep[w]->send(m); bool dead = d[1 - w].dead; if (dead) { MC_CHECK(ep[w]->out.size() == n, "send-after-error", "an endpoint in error sent"); return; } MC_CHECK(ep[w]->out.size() == n + 1 && ep[w]->active(), "send-failed", "sending over an active channel failed (error %d)", wickr_transport_ctx_get_last_error(ep[w]->t.get())); MC_CHECK(m.size() < 8 || ep[w]->out.back().find(m) == Bytes::npos, "clear", "data on the wire in clear"); d[w].plain.push_back(m); d[w].pkt.push_back(ep[w]->out.back()); };
        send(0, "a0 first message"); send(0, pat(1, 1)); send(1, pat(40, 2)); std::string hist; int cnt = 0;
        for (int i = 0; i < depth; i++) {
            struct Op { int op, w, k; }; std::vector<Op> en = { { 0, 0, 0 }, { 0, 1, 0 } };
            for (int w = 0; w < 2; w++) { Dir &D = d[w]; int left = (int)D.pkt.size() - D.last - 1; for (int k = 0; k < 2 && k < left; k++) en.push_back({ 1, w, k }); if (!attacks || D.dead) continue; for (int k = 0; k < A_N; k++) { if (k >= A_SEQ_UP && k <= A_CROSS && left < (k == A_CROSS ? 2 : 1)) continue; if ((k == A_REPLAY && D.last < 0) || (k == A_OLDER && D.last < 1) || (k == A_REFLECT && d[1 - w].pkt.empty())) continue; en.push_back({ 2, w, k }); } }
            Op o = en[mc::choose((int)en.size(), "op")]; int op = o.op, w = o.w; mc::step();
            if (op == 0) { send(w, pat(3 + 17 * cnt++, w + 10)); hist += w ? "b sends; " : "a sends; "; }
            else if (op == 1) { Dir &D = d[w]; int j = D.last + 1 + o.k; hist += std::string(w ? "b" : "a") + "'s packet " + std::to_string(j) + " delivered; "; ep[1 - w]->recv(D.pkt[j]); if (!D.dead) { D.last = j; D.want.push_back(D.plain[j]); } mc::outcome("genuine"); }
            else {
                int k = o.k; Dir &D = d[w]; int nx = D.last + 1; Bytes p; if (nx < (int)D.pkt.size()) p = D.pkt[nx];
                size_t hs = 1 + 8; auto seq = [&](int64_t by) { uint64_t s; memcpy(&s, &p[1], 8); s += by; memcpy(&p[1], &s, 8); };
                switch (k) {
                case A_REPLAY: p = D.pkt[D.last]; break; case A_OLDER: p = D.pkt[0]; break;
                case A_REFLECT: { Dir &R = d[1 - w]; p = R.pkt.back(); break; } case A_OTHER: p = ob[w]; break; case A_OTHERDIR: p = ob[1 - w]; break;
                case A_SEQ_UP: seq(1); break; case A_SEQ_DOWN: seq(-1); break; case A_SEQ_PERIOD: seq(ppe); break; case A_TYPE: p[0] ^= 0x10; break; case A_MAC: p[0] = (p[0] & 0xf0) | ((p[0] & 15) == 0 ? 1 : 0); break;
                case A_CIPHER: p[hs] ^= 1; break; case A_IV: p[hs + 1] ^= 4; break; case A_BODY: p[p.size() - 17] ^= 4; break; case A_TAG: p[p.size() - 1] ^= 4; break; case A_CUT1: p.pop_back(); break; case A_CUTHALF: p.resize(p.size() / 2); break; case A_HEADONLY: p.resize(hs); break; case A_EXTEND: p += 'x'; break;
                case A_CROSS: p = D.pkt[nx].substr(0, hs) + D.pkt[nx + 1].substr(hs); break;
                case A_HS_START: p = c->ini->out[0]; break; case A_HS_RESP: p = (c->ini == ep[0] ? ep[1] : ep[0])->out[0]; break; case A_EMPTY: p = ""; break; case A_GARBAGE: p = pat(60, 3); break; case A_SIGNED: p = Bytes(p.empty() ? D.pkt[0] : p); p[0] = (p[0] & 0xf0) | 2; p += pat(200, 1); break; case A_BIGSEQ0: p = Bytes(p.empty() ? D.pkt[0] : p); memset(&p[1], 0, 8); break;
                }
                hist += std::string(AN[k]) + " to " + (w ? "a" : "b") + "; "; size_t n = ep[1 - w]->got.size(); ep[1 - w]->recv(p); mc::outcome("attack"); D.dead = true;
                MC_CHECK(ep[1 - w]->got.size() == n, "forged-delivered", "ppe %u: delivered %s after: %s", ppe, hex(ep[1 - w]->got.back()).c_str(), hist.c_str()); MC_CHECK(ep[1 - w]->error(), "no-error", "ppe %u: the receiver is not in the error state (but %d) after: %s", ppe, ep[1 - w]->status(), hist.c_str());
            }
            for (int w = 0; w < 2; w++) { Endpoint &r = *ep[1 - w]; MC_CHECK(r.got == d[w].want, "not-faithful", "ppe %u: delivered %zu messages (last %s), expected %zu (last %s) after: %s", ppe, r.got.size(), r.got.empty() ? "-" : hex(r.got.back()).c_str(), d[w].want.size(), d[w].want.empty() ? "-" : hex(d[w].want.back()).c_str(), hist.c_str()); MC_CHECK(r.error() == d[w].dead, "spurious-error", "endpoint %s state %d after: %s", w ? "a" : "b", r.status(), hist.c_str()); }
            mc::state(mc::Hash().u(ppe).u(swap).u(d[0].last).u(d[1].last).u(d[0].pkt.size()).u(d[1].pkt.size()).u(d[0].dead).u(d[1].dead).u(real).h);
        }
        };
    mc::part("network", [&] { run(false, mc::tier(3, 4), true); });
    mc::part("delivery", [&] { run(false, mc::tier(5, 7), false); });
    mc::part("network-real", [&] { run(true, mc::tier(1, 2), true); });
    // every single-bit change and every truncation of a data packet
    mc::part("every-bit", [&] { bool real = mc::tier(0, 1) && mc::flip("engine"); std::unique_ptr<Chan> c(open(real, 2, true, false)); c->a.send(pat(20, 1)); c->a.send(pat(20, 2)); Bytes p = c->a.out.back(), q = c->a.out[c->a.out.size() - 2]; int i = mc::choose((int)p.size(), "byte"), b = mc::choose(9, "bit"); bool first = mc::choose(2, "after the first"); if (first) c->b.recv(q); size_t n = c->b.got.size(); mc::step();
        uint64_t old, nw; Bytes m = p; if (b < 8) m[i] ^= (char)(1 << b); else m.resize(i); if (m.size() >= 9) { memcpy(&old, &p[1], 8); memcpy(&nw, &m[1], 8); if (nw > old && nw - old > (1u << 20)) { mc::outcome("skipped: far ahead (S02)"); return; } }
        c->b.recv(m); MC_CHECK(c->b.got.size() == n && c->b.error(), "forged-delivered", "byte %d bit %d: %s, state %d", i, b, c->b.got.size() > n ? "delivered" : "not delivered", c->b.status()); c->b.recv(p); c->b.recv(q); MC_CHECK(c->b.got.size() == n, "after-error", "delivered after an error"); });
    // sizes
    mc::part("sizes", [&] { bool real = mc::flip("engine"); std::unique_ptr<Chan> c(open(real, mc::choose(2, "ppe") ? 512 : 1, true, mc::flip("initiator"))); int from = mc::choose(2, "from"); Endpoint &s = from ? c->b : c->a, &r = from ? c->a : c->b; static const std::vector<size_t> sz = { 1, 2, 15, 16, 17, 255, 256, 4095, 4096, 65535, 65536, 1000003, (1 << 21) + 1, 5000011 }; std::vector<Bytes> want; int n = mc::choose((int)sz.size(), "size");
        for (int i = 0; i < 3; i++) { want.push_back(pat(sz[(n + i * 5) % sz.size()], i)); s.send(want.back()); mc::step(); c->pump(); } MC_CHECK(r.got == want && r.active() && s.active(), "not-faithful", "delivered %zu of 3 messages", r.got.size()); });
    mc::part("long-run", [&] { uint32_t ppe = mc::pick(std::vector<uint32_t>{ 1, 3, 512 }, "ppe"); int lose = mc::choose(3, "lose"); std::unique_ptr<Chan> c(open(false, ppe, false, false)); std::vector<Bytes> want[2]; int n = mc::tier(700, 3000); for (int i = 0; i < n; i++) for (int w = 0; w < 2; w++) { Endpoint &s = w ? c->b : c->a, &r = w ? c->a : c->b; Bytes m = std::to_string(i) + (w ? "b" : "a"); s.send(m); mc::step(); if (lose && i % (lose + 1) == 0) continue; r.recv(s.out.back()); want[w].push_back(m); } MC_CHECK(c->b.got == want[0] && c->a.got == want[1], "not-faithful", "ppe %u: a long run lost or changed messages", ppe); });
    mc::part("very-long-run", [&] { std::unique_ptr<Chan> c(open(false, 512, false, false)); int from = mc::choose(2, "from"), lost = mc::choose(2, "lost"), n = 66000; Endpoint &s = from ? c->b : c->a, &r = from ? c->a : c->b; Bytes first; size_t got = 0;
        for (int i = 1; i <= n; i++) { Bytes m = std::to_string(i); s.send(m); MC_CHECK(s.active() && s.out.size(), "not-faithful", "sending failed at packet %d", i); if (i == 1) first = s.out.back(); if (!lost || i == 1 || i > n - 3) { r.recv(s.out.back()); got++; MC_CHECK(r.got.size() && r.got.back() == m && r.active(), "not-faithful", "packet %d was not delivered", i); r.got.clear(); } s.out.clear(); }
        mc::step(n); r.recv(first); MC_CHECK(r.got.empty() && !r.active(), "forged-delivered", "the first packet was delivered again after %d others", n); });
    // several sessions between the same two identities do not mix
    mc::part("sessions", [&] { int n = 3; std::vector<std::unique_ptr<Chan>> c; for (int i = 0; i < n; i++) c.emplace_back(open(false, 2, mc::choose(2, "pinned"), mc::choose(2, "initiator"))); int from = mc::choose(n, "from"), to = mc::choose(n, "to"), sd = mc::choose(2, "sender"), rd = mc::choose(2, "receiver"); Endpoint &s = sd ? c[from]->b : c[from]->a, &r = rd ? c[to]->b : c[to]->a; mc::step(); s.send("hello"); r.recv(s.out.back()); bool ok = from == to && sd != rd; MC_CHECK((r.got.size() == 1) == ok, "forged-delivered", "a packet of session %d %s session %d", from, ok ? "was not delivered in" : "was delivered in", to); });
    return mc::finish();
}
