// T03: the channel life cycle is respected
#include "chan.hpp"
static std::vector<OChain> ids; static wickr_crypto_engine_t TOY; static Bytes other_data, other_start, other_resp;
enum { O_START, O_TX, O_RX_START, O_RX_RESP, O_RX_DATA, O_GARBAGE, O_EMPTY, O_NULL, O_REFLECT, O_YES, O_NO, O_TXNULL, O_OTHER_DATA, O_OTHER_RESP, O_CUT_START, O_CUT_RESP, O_TXBIG, O_COPY, O_VERSION, O_N };
static const char *ON[] = { "start", "send", "peer's start", "peer's response", "peer's data", "garbage", "empty packet", "no packet", "own packet back", "approve", "refuse", "send nothing", "data of another session", "response of another session", "peer's start cut", "peer's response cut", "send much", "continue with a copy", "peer's start in another protocol version" };

int main(int argc, char **argv)
{
    mc::init("T03", "model_checking", "every sequence, up to the depth, of 19 kinds of calls and packets at an endpoint, pinned or not, answering identity questions at once or later, with or without sending from inside the callbacks; compared with a reference life cycle", argc, argv);
    rng_install(); rng_seed(mc::seed()); TOY = toy_engine(); for (auto n : { "alice", "bob" }) ids.emplace_back(mk_chain(TOY, n, Bytes(32, n[0])));
    { Chan c(TOY, ids[0].get(), ids[1].get(), 1, true); if (c.connect()) { c.b.send("other session"); other_data = c.b.out.back(); other_resp = c.b.out[0]; } }
    mc::on_exec([] { rng_seed(mc::seed() + 7); });
    auto run = [&](int depth, bool alone) {
        bool pinned = mc::choose(2, "pinned"), eager = mc::choose(2, "sends from the callback"), later = !pinned && mc::choose(2, "answers later"); OChain pa(pub_chain(TOY, ids[0].get())), pb(pub_chain(TOY, ids[1].get()));
        Endpoint a, resp, init; a.open(TOY, ids[0].get(), pinned ? pb.get() : nullptr, 2); resp.open(TOY, ids[1].get(), pa.get(), 2); init.open(TOY, ids[1].get(), pa.get(), 2); init.start(); MC_CHECK(a.t && init.out.size() == 1, "setup", "endpoints"); if (later) a.auto_answer = -1;
        if (eager) { a.on_state = [](Endpoint &e, wickr_transport_status s) { if (s == TRANSPORT_STATUS_ACTIVE) e.send("eager payload"); }; }
        enum { NONE, PEND_R, INIT, PEND_I, ACTIVE, ERR } st = NONE; Endpoint *peer = nullptr; size_t hs = 0, data = 0, got = 0, chg = 0, asks = 0; bool answered = false; std::string hist; std::vector<Bytes> sent; size_t wire = 0;
        auto to = [&](int s) { int old = st; auto vis = [](int x) { return x == NONE || x == PEND_R ? 0 : x == INIT || x == PEND_I ? 1 : x == ACTIVE ? 2 : 3; }; st = (decltype(st))s; if (vis(old) != vis(s)) chg++; if (s == ACTIVE && old != ACTIVE && eager) { data++; sent.push_back("eager payload"); } };
        for (int i = 0; i < depth; i++) {
            std::vector<int> en; for (int k = 0; k < O_N; k++) { if ((k == O_RX_RESP || k == O_CUT_RESP) && (a.out.empty() || resp.error())) continue; if (k == O_RX_DATA && (!peer || !peer->active())) continue; if (k == O_REFLECT && a.out.empty()) continue; if ((k == O_YES || k == O_NO) && !a.done) continue; if ((k == O_OTHER_DATA && other_data.empty()) || (k == O_OTHER_RESP && other_resp.empty())) continue; en.push_back(k); }
            int op = en[mc::choose((int)en.size(), "op")]; hist += std::string(ON[op]) + "; "; mc::step(); std::string m = "payload number " + std::to_string(i);
            // make the genuine response available
            if ((op == O_RX_RESP || op == O_CUT_RESP) && resp.out.empty()) { resp.recv(a.out[0]); if (resp.out.empty()) { hist += "(peer refuses) "; continue; } }
            int before = st; bool stale = false;
            switch (op) {
            case O_START: if (st == NONE) { to(INIT); hs++; } else to(ERR); a.start(); break;
            case O_TX: case O_TXBIG: if (op == O_TXBIG) m = pat(70000, i); if (st == ACTIVE) { data++; sent.push_back(m); } else to(ERR); a.send(m); break;
            case O_TXNULL: to(ERR); wickr_transport_ctx_process_tx_buffer(a.t.get(), nullptr); break;
            case O_NULL: to(ERR); wickr_transport_ctx_process_rx_buffer(a.t.get(), nullptr); break;
            case O_RX_START: if (st == NONE) { peer = &init; if (pinned || !later) { to(ACTIVE); hs++; if (!pinned) asks++; } else { to(PEND_R); asks++; } } else to(ERR); a.recv(init.out[0]); break;
            case O_RX_RESP: if (st == INIT) { peer = &resp; if (pinned || !later) { to(ACTIVE); if (!pinned) asks++; } else { to(PEND_I); asks++; } } else to(ERR); a.recv(resp.out[0]); break;
            case O_RX_DATA: { size_t n = peer->out.size(); peer->send(m); MC_CHECK(peer->out.size() > n, "setup", "peer cannot send"); if (st == ACTIVE) got++; else to(ERR); a.recv(peer->out.back()); break; }
            case O_OTHER_DATA: to(ERR); a.recv(other_data); break; case O_OTHER_RESP: to(ERR); a.recv(other_resp); break;
            case O_COPY: { OTrans t(wickr_transport_ctx_copy(a.t.get())); MC_CHECK(t, "copy", "no copy after: %s", hist.c_str()); a.t = std::move(t); break; }
            case O_GARBAGE: to(ERR); a.recv(pat(50, i)); break; case O_EMPTY: to(ERR); a.recv(""); break; case O_REFLECT: to(ERR); a.recv(a.out.back()); break;
            case O_VERSION: { to(ERR); Bytes p = init.out[0].substr(0, init.out[0].size() - EC_CURVE_NIST_P521.signature_size); p[1] = (char)(mc::flip("version") ? 2 : 0); Exact d(p); OSig sg(TOY.wickr_crypto_engine_ec_sign(ids[1]->node->sig_key, d, DIGEST_SHA_512)); OBuf sb(wickr_ecdsa_result_serialize(sg.get())); a.recv(p + str(sb.get())); break; }
            case O_CUT_START: to(ERR); a.recv(init.out[0].substr(0, init.out[0].size() - 1)); break; case O_CUT_RESP: to(ERR); a.recv(resp.out[0].substr(0, resp.out[0].size() / 2)); break;
            case O_YES: case O_NO: if (st == PEND_R || st == PEND_I) { bool r = st == PEND_R; answered = true; if (op == O_YES) { to(ACTIVE); if (r) hs++; } else to(ERR); } else stale = true; a.answer(op == O_YES); break;
            }
            if (stale && a.error() && st != ERR) to(ERR);                       // a late answer may only be ignored or end the channel
            if (peer && st == ACTIVE && peer == &init && !init.active() && !init.error()) { for (; wire < a.out.size(); wire++) init.recv(a.out[wire]); }
            static const wickr_transport_status VIS[] = { TRANSPORT_STATUS_NONE, TRANSPORT_STATUS_NONE, TRANSPORT_STATUS_INITIAL_HANDSHAKE, TRANSPORT_STATUS_INITIAL_HANDSHAKE, TRANSPORT_STATUS_ACTIVE, TRANSPORT_STATUS_ERROR };
            MC_CHECK(a.status() == VIS[st], "wrong-state", "pinned %d, eager %d: state %d, expected %d (from %d) after: %s", pinned, eager, a.status(), VIS[st], VIS[before], hist.c_str());
            MC_CHECK((wickr_transport_ctx_get_last_error(a.t.get()) != TRANSPORT_ERROR_NONE) == (st == ERR), "error-code", "error code %d in state %d after: %s", wickr_transport_ctx_get_last_error(a.t.get()), a.status(), hist.c_str());
            MC_CHECK(a.states.size() == chg, "state-reports", "%zu state changes reported, %zu happened, after: %s", a.states.size(), chg, hist.c_str()); for (size_t j = 0; j < a.states.size(); j++) MC_CHECK(a.states[j] == a.states_actual[j] && (!j || a.states[j] != a.states[j - 1]), "state-reports", "reported state %d while in %d after: %s", a.states[j], a.states_actual[j], hist.c_str());
            if (!a.states.empty()) MC_CHECK(a.states.back() == a.status(), "state-reports", "last reported state %d, actual %d", a.states.back(), a.status());
            MC_CHECK(a.out.size() == hs + data, "wire", "%zu packets on the wire, expected %zu handshake + %zu data, after: %s", a.out.size(), hs, data, hist.c_str()); MC_CHECK(a.got.size() == got, "delivered", "%zu delivered, expected %zu, after: %s", a.got.size(), got, hist.c_str()); MC_CHECK(a.asked.size() == asks, "asked", "%zu identity questions, expected %zu, after: %s", a.asked.size(), asks, hist.c_str());
            for (auto s : a.got_status) MC_CHECK(s == TRANSPORT_STATUS_ACTIVE, "delivered", "data delivered in state %d", s);
            for (size_t j = 0; j < a.out.size(); j++) { bool h = ((uint8_t)a.out[j][0] >> 4) == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE; MC_CHECK(h == (j < hs), "wire", "packet %zu on the wire is %s, after: %s", j, h ? "a handshake packet" : "data", hist.c_str()); MC_CHECK(a.out[j].find("payload") == Bytes::npos, "clear", "application data in clear on the wire after: %s", hist.c_str()); if (!h) MC_CHECK(a.out_status[j] == TRANSPORT_STATUS_ACTIVE, "wire", "data put on the wire in state %d", a.out_status[j]); }
            mc::outcome(st == ERR ? "error" : st == ACTIVE ? "active" : "setting up"); mc::state(mc::Hash().u(pinned).u(eager).u(later).u(st).u(hs).u(data).u(got).u(asks).u(answered).h);
            if (st == ERR && before == ERR && depth - i > 2) break;             // one call past the error has been checked; two more positions are explored below
        }
        // everything sent while active reaches the peer, in order
        if (peer && st == ACTIVE) { if (peer == &init) { for (; wire < a.out.size(); wire++) init.recv(a.out[wire]); } else for (size_t j = 1; j < a.out.size(); j++) resp.recv(a.out[j]); MC_CHECK(peer->got == sent && peer->active(), "not-delivered", "the peer received %zu of %zu messages (its state %d) after: %s", peer->got.size(), sent.size(), peer->status(), hist.c_str()); }
        (void)alone; };
    mc::part("calls", [&] { run(mc::tier(4, 5), true); });
    // from an established channel on
    mc::part("nothing-after-error", [&] { bool ini = mc::choose(2, "initiator"), pinned = mc::choose(2, "pinned"); Chan c(TOY, ids[0].get(), ids[1].get(), 2, pinned); if (ini) c.swap(); MC_CHECK(c.connect(), "setup", "channel"); Endpoint &a = c.a, &b = c.b; b.send("held back"); Bytes held = b.out.back(); int how = mc::choose(6, "how");
        if (how == 0) a.start(); if (how == 1) a.recv("xx"); if (how == 2) wickr_transport_ctx_process_tx_buffer(a.t.get(), nullptr); if (how == 3) a.recv(a.out[0]); if (how == 4) { Bytes m = held; m.back() ^= 1; a.recv(m); } if (how == 5) wickr_transport_ctx_process_rx_buffer(a.t.get(), nullptr);
        MC_CHECK(a.error(), "wrong-state", "case %d did not lead to the error state", how); size_t n = a.log.size(); std::string hist; for (int i = 0; i < mc::tier(3, 4); i++) { int k = mc::choose(8, "op"); mc::step(); hist += std::to_string(k) + " "; if (k == 0) a.start(); if (k == 1) a.send("more"); if (k == 2) a.recv(held); if (k == 3) a.recv(b.out[0]); if (k == 4) a.answer(true); if (k == 5) a.answer(false); if (k == 6) wickr_transport_ctx_process_rx_buffer(a.t.get(), nullptr); if (k == 7) { OTrans t(wickr_transport_ctx_copy(a.t.get())); if (t) { a.t = std::move(t); MC_CHECK(wickr_transport_ctx_get_last_error(a.t.get()) != TRANSPORT_ERROR_NONE, "error-code", "a copy of an endpoint in error reports no error"); } } MC_CHECK(a.error() && a.log.size() == n, "after-error", "an endpoint in error (case %d) did something or left the error state (%d) after %s", how, a.status(), hist.c_str()); } });
    // the handshake below a channel, through its own interface
    mc::part("handshake", [&] {
        static const char *on[] = { "start", "peer's start", "peer's response", "other packet", "no packet", "approve", "refuse", "finalize", "copy" }; static int asked; static Bytes who; bool pinned = mc::choose(2, "pinned"); OChain pa(pub_chain(TOY, ids[0].get())), pb(pub_chain(TOY, ids[1].get()));
        struct HD { void operator()(wickr_transport_handshake_t *h) { wickr_transport_handshake_destroy(&h); } }; struct PD { void operator()(wickr_transport_packet_t *h) { wickr_transport_packet_destroy(&h); } }; struct RD { void operator()(wickr_transport_handshake_res_t *h) { wickr_transport_handshake_res_destroy(&h); } }; typedef std::unique_ptr<wickr_transport_handshake_t, HD> OHs; typedef std::unique_ptr<wickr_transport_packet_t, PD> OPk; typedef std::unique_ptr<wickr_transport_handshake_res_t, RD> ORs;
        auto cb = [](const wickr_transport_handshake_t *, wickr_identity_chain_t *c, void *) { asked++; who = take(wickr_identity_chain_serialize(c)); wickr_identity_chain_destroy(&c); }; asked = 0;
        auto mkh = [&](int i, const wickr_identity_chain_t *peer) { wickr_identity_chain_t *l = wickr_identity_chain_copy(ids[i].get()), *r = wickr_identity_chain_copy(peer); OHs h(wickr_transport_handshake_create(TOY, l, r, cb, 3, nullptr)); if (!h) { wickr_identity_chain_destroy(&l); wickr_identity_chain_destroy(&r); } return h; };
        OHs a = mkh(0, pinned ? pb.get() : nullptr), init = mkh(1, pa.get()), resp = mkh(1, pa.get()); OPk ps(wickr_transport_handshake_start(init.get())), own, pr, outp; MC_CHECK(a && ps && resp, "setup", "handshakes"); Bytes own_b;
        auto wire = [](const wickr_transport_packet_t *p) { OBuf b(wickr_transport_packet_serialize(p)); return OPk(wickr_transport_packet_create_from_buffer(b.get())); };
        enum { U, P, V, F, C, X } st = U; bool ini = false; ORs res; std::string hist; int asks = 0; OPk other(wire(ps.get())); if (other->body->length > 20) other->body->bytes[other->body->length / 2] ^= 1; { OBuf b(wickr_transport_packet_serialize(other.get())); other.reset(wickr_transport_packet_create_from_buffer(b.get())); }
        for (int i = 0; i < mc::tier(5, 7); i++) { int op = mc::choose(9, "op"); if (op == 2 && !own) mc::prune(); hist += std::string(on[op]) + "; "; mc::step(); int before = st; OPk out; ORs r;
            switch (op) {
            case 0: out.reset(wickr_transport_handshake_start(a.get())); if (st == U) { st = P; ini = true; } else st = X; break;
            case 1: { OPk w = wire(ps.get()); out.reset(wickr_transport_handshake_process(a.get(), w.get())); if (st == U) { st = pinned ? F : V; asks += !pinned; } else st = X; break; }
            case 2: { if (!pr) { OPk w = wire(own.get()); pr.reset(wickr_transport_handshake_process(resp.get(), w.get())); MC_CHECK(pr, "setup", "the peer refuses"); } OPk w = wire(pr.get()); out.reset(wickr_transport_handshake_process(a.get(), w.get())); if (st == P) { st = pinned ? F : V; asks += !pinned; } else st = X; break; }
            case 3: out.reset(wickr_transport_handshake_process(a.get(), other.get())); st = X; break;
            case 4: out.reset(wickr_transport_handshake_process(a.get(), nullptr)); st = X; break;
            case 5: out.reset(wickr_transport_handshake_verify_identity(a.get(), true)); st = st == V ? F : X; break;
            case 6: out.reset(wickr_transport_handshake_verify_identity(a.get(), false)); st = X; break;
            case 7: r.reset(wickr_transport_handshake_finalize(a.get())); if (st == F) { st = C; MC_CHECK(r, "finalize", "no keys after: %s", hist.c_str()); res = std::move(r); } else { st = X; MC_CHECK(!r, "finalize", "keys in state %d after: %s", before, hist.c_str()); } break;
            case 8: { OHs c(wickr_transport_handshake_copy(a.get())); MC_CHECK(c, "copy", "no copy after: %s", hist.c_str()); a = std::move(c); break; } }
            static const wickr_transport_handshake_status VIS[] = { TRANSPORT_HANDSHAKE_STATUS_UNKNOWN, TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS, TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION, TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION, TRANSPORT_HANDSHAKE_STATUS_COMPLETE, TRANSPORT_HANDSHAKE_STATUS_FAILED };
            MC_CHECK(wickr_transport_handshake_get_status(a.get()) == VIS[st], "handshake-state", "pinned %d: state %d, expected %d (from %d) after: %s", pinned, wickr_transport_handshake_get_status(a.get()), VIS[st], before, hist.c_str());
            bool due = (op == 0 && st == P) || (op == 1 && st == F) || (op == 5 && st == F && !ini); MC_CHECK((bool)out == due, "handshake-output", "a message %s after: %s", out ? "came out" : "is missing", hist.c_str()); if (out) { if (op == 0) own = std::move(out); else outp = std::move(out); }
            MC_CHECK(asked == asks, "asked", "%d identity questions, expected %d, after: %s", asked, asks, hist.c_str()); if (asks) MC_CHECK(who == take(wickr_identity_chain_serialize(pb.get())), "asked", "asked about another identity after: %s", hist.c_str());
            mc::outcome(st == C ? "complete" : st == X ? "failed" : "under way"); mc::state(mc::Hash().u(pinned).u(st).u(ini).u(asks).h); if (st == X && before == X && op != 8) break; }
        if (res) { OHs &peer = ini ? resp : init; if (!ini) { OPk w = wire(outp.get()); wickr_transport_handshake_process(peer.get(), w.get()); } ORs pres(wickr_transport_handshake_finalize(peer.get())); MC_CHECK(pres, "finalize", "the peer has no keys after: %s", hist.c_str());
            auto same = [](const wickr_stream_key_t *x, const wickr_stream_key_t *y) { return take(wickr_stream_key_serialize(x)) == take(wickr_stream_key_serialize(y)); }; auto L = wickr_transport_handshake_res_get_local_key, R = wickr_transport_handshake_res_get_remote_key; MC_CHECK(same(L(res.get()), R(pres.get())) && same(R(res.get()), L(pres.get())), "keys-differ", "the two sides derived different keys after: %s", hist.c_str()); MC_CHECK(!same(L(res.get()), R(res.get())), "keys-differ", "one key for both directions"); } }, mc::PartOpts{ .require = { "complete", "failed" } });
    // creation arguments
    mc::part("creation", [&] { int k = mc::choose(6, "case"); OChain pb(pub_chain(TOY, ids[1].get())); uint32_t evo[] = { 0, 1, 32768, 32769, 0xffffffffu, 7 }; Endpoint a; a.open(TOY, k == 5 ? nullptr : ids[0].get(), pb.get(), evo[k]); mc::step(); bool ok = k <= 2; MC_CHECK((bool)a.t == ok, "creation", "period length %u, identity %d: created %d", evo[k], k != 5, (bool)a.t); if (ok) MC_CHECK(a.status() == TRANSPORT_STATUS_NONE && a.log.empty(), "creation", "fresh endpoint in state %d", a.status()); wickr_transport_ctx_start(nullptr); wickr_transport_ctx_process_rx_buffer(nullptr, nullptr); wickr_transport_ctx_process_tx_buffer(nullptr, nullptr); });
    return mc::finish();
}
