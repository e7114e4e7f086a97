#include "../ops.hpp"
namespace ops {
std::vector<OpDef> streams()
{
    std::vector<OpDef> v;
    // several packets in a row: whatever was delivered is right, and once the fault is over the stream goes on
    for (uint64_t step : { 1ull, 2ull, 5ull }) add(v, "stream-encode-step" + std::to_string(step), [=](ER e) { struct S { Pair p; std::vector<OCipher> out; std::vector<uint64_t> seq; uint64_t at = 0; S(ER e) : p(mk_pair(e, 2)) {} }; auto s = sp<S>(e);
        return Inst{ [=] { for (int i = 0; i < 3; i++) { Exact d("data"); s->at += step; wickr_cipher_result_t *c = wickr_stream_ctx_encode(s->p.enc.get(), d, nullptr, s->at); s->out.emplace_back(c); s->seq.push_back(s->at); } }, [=]() -> int { int ok = 1; for (size_t i = 0; i < s->out.size(); i++) { if (!s->out[i]) { ok = 0; continue; } OBuf d(dec(s->p.dec, s->out[i].get(), "", s->seq[i])); OPX(is(d.get(), "data"), "a packet of the stream does not open"); } return ok; }, [=] { s->out.clear(); s->seq.clear(); }, true }; });
    for (uint64_t step : { 1ull, 2ull, 5ull }) add(v, "stream-decode-step" + std::to_string(step), [=](ER e) { struct S { Pair p; std::vector<OCipher> in; std::vector<OBuf> out; uint64_t at = 0; size_t done = 0; S(ER e) : p(mk_pair(e, 2)) {} }; auto s = sp<S>(e); for (int i = 1; i <= 8; i++) { Exact d("data"); s->in.emplace_back(wickr_stream_ctx_encode(s->p.enc.get(), d, nullptr, i * step)); }
        return Inst{ [=] { for (int i = 0; i < 3 && s->done < s->in.size(); i++) { s->done++; s->out.emplace_back(wickr_stream_ctx_decode(s->p.dec.get(), s->in[s->done - 1].get(), nullptr, s->done * step)); } }, [=]() -> int { int ok = 1; for (auto &o : s->out) { if (!o) { ok = 0; continue; } OPX(is(o.get(), "data"), "a packet of the stream opens as something else"); } return ok; }, [=] { s->out.clear(); }, true }; });
    add(v, "stream-decode-altered", [](ER e) { struct S { Pair p; OCipher c; OBuf o; S(ER e) : p(mk_pair(e, 2)) {} }; auto s = sp<S>(e); Exact d("data"); s->c.reset(wickr_stream_ctx_encode(s->p.enc.get(), d, nullptr, 5)); s->c->cipher_text->bytes[0] ^= 1; return ret<OBuf>([=] { return wickr_stream_ctx_decode(s->p.dec.get(), s->c.get(), nullptr, 5); }, [](MB) { MC_CHECK(false, "unauthenticated", "an altered packet was opened"); }); }, 0);
    add(v, "stream-iv", [](ER e) { auto i = sp<Own<wickr_stream_iv_t, wickr_stream_iv_destroy>>(wickr_stream_iv_create(e, CIPHER_AES256_GCM)); auto last = sp<Bytes>(); return ret<OBuf>([=] { return wickr_stream_iv_generate(i->get()); }, [=](MB b) { OPX(b->length == 12 && str(b) != *last, "nonce"); *last = str(b); }); });
    add(v, "stream-iv-create", [](ER e) { return ret<Own<wickr_stream_iv_t, wickr_stream_iv_destroy>>([=] { return wickr_stream_iv_create(e, CIPHER_AES256_GCM); }, [](wickr_stream_iv_t *i) { OBuf b(wickr_stream_iv_generate(i)); OPX(b && b->length == 12, "nonce"); }); });
    return v;
}
struct ChanScene { OChain a, b; std::unique_ptr<Chan> ch; Bytes bad; };
std::vector<Bytes> texts3() { return { "one", "two", "three" }; }
bool subsequence(const std::vector<Bytes> &got, const std::vector<Bytes> &sent) { size_t j = 0; for (auto &g : got) { while (j < sent.size() && sent[j] != g) j++; if (j++ >= sent.size()) return false; } return true; }
std::vector<OpDef> channels()
{
    std::vector<OpDef> v;
    // a whole channel, from creation to data in both directions, with the fault anywhere; stages run separately so that depth is reached
    for (int pinned = 0; pinned < 2; pinned++) for (int stage = 0; stage < 4; stage++) { static const char *sn[] = { "open", "connect", "data", "whole" };
        add(v, std::string("channel-") + sn[stage] + (pinned ? "-pinned" : ""), [=](ER e) { auto s = sp<ChanScene>(); s->a.reset(mk_chain(e, "alice", "a1")); s->b.reset(mk_chain(e, "bob", "b1")); auto open = [=] { s->ch.reset(new Chan(e, s->a.get(), s->b.get(), 2, pinned)); }; if (stage == 1 || stage == 2) { open(); if (!s->ch->a.t || !s->ch->b.t) { fprintf(stderr, "ops: channel\n"); abort(); } } if (stage == 2 && !s->ch->connect()) { fprintf(stderr, "ops: connect\n"); abort(); }
            auto talk = [=] { Chan &c = *s->ch; for (auto &t : texts3()) { if (c.a.t) c.a.send(t); if (c.b.t) c.b.send(t); if (c.a.t && c.b.t) c.pump(); } };
            return Inst{ [=] { if (stage == 0 || stage == 3) open(); Chan &c = *s->ch; if (!c.a.t || !c.b.t) return; if (stage == 1 || stage == 3) c.connect(); if (stage == 2 || stage == 3) talk(); },
                [=]() -> int { Chan &c = *s->ch; if (!c.a.t || !c.b.t) return 0; OPX(subsequence(c.a.got, texts3()) && subsequence(c.b.got, texts3()), "delivered data that was not sent"); for (Endpoint *p : { &c.a, &c.b }) { if (!pinned) for (auto &i : p->asked) { OBuf want(wickr_identity_chain_serialize(p == &c.a ? s->b.get() : s->a.get())); OPX(i.empty() || is(want.get(), i), "asked about another identity"); } }
                    if (stage == 0) return 1; bool full = c.a.got == texts3() && c.b.got == texts3(); bool both = c.a.active() && c.b.active(); if (both) { size_t na = c.a.got.size(), nb = c.b.got.size(); c.a.send("after"); c.b.send("after"); c.pump(); MC_CHECK(c.a.got.size() == na + 1 && c.b.got.size() == nb + 1 && c.a.got.back() == "after" && c.b.got.back() == "after", "active-without-keys", "both endpoints are active but do not understand each other"); c.a.got.pop_back(); c.b.got.pop_back(); }
                    for (auto *p : { &c.a, &c.b }) for (auto &o : p->out) for (auto &t : texts3()) OPX(t.size() < 5 || o.find(t) == Bytes::npos, "data on the wire unencrypted"); bool done = stage == 1 ? both : both && full; MC_CHECK(done || c.a.error() || c.b.error(), "unreported", "a call failed, but neither endpoint is in the error state"); return done; },
                [=] {}, false }; }); }
    // an impostor stays an impostor: the pinned identity is not who answers
    add(v, "channel-impostor", [](ER e) { struct S { OChain a, b, m; std::unique_ptr<Endpoint> x, y; }; auto s = sp<S>(); s->a.reset(mk_chain(e, "alice", "a1")); s->b.reset(mk_chain(e, "bob", "b1")); s->m.reset(mk_chain(e, "bob", "b1")); OChain pb(pub_chain(e, s->b.get())), pa(pub_chain(e, s->a.get())); s->x.reset(new Endpoint); s->y.reset(new Endpoint); s->x->open(e, s->a.get(), pb.get(), 3); s->y->open(e, s->m.get(), pa.get(), 3);
        return Inst{ [=] { s->x->start(); for (size_t i = 0, j = 0; i < s->x->out.size() || j < s->y->out.size();) { if (i < s->x->out.size()) s->y->recv(s->x->out[i++]); else s->x->recv(s->y->out[j++]); } }, [=]() -> int { MC_CHECK(!s->x->active(), "unauthenticated", "active with an impostor"); return 0; }, [] {}, false }; }, 0);
    for (int refuse = 0; refuse < 2; refuse++) add(v, refuse ? "channel-refused" : "channel-altered-response", [refuse](ER e) { auto s = sp<ChanScene>(); s->a.reset(mk_chain(e, "alice", "a1")); s->b.reset(mk_chain(e, "bob", "b1")); s->ch.reset(new Chan(e, s->a.get(), s->b.get(), 2, false)); if (refuse) s->ch->a.auto_answer = 0;
        return Inst{ [=] { Chan &c = *s->ch; c.a.start(); if (c.a.out.size()) c.b.recv(c.a.out[0]); if (c.b.out.size()) { Bytes r = c.b.out[0]; if (!refuse) r[r.size() / 3] ^= 1; c.a.recv(r); } }, [=]() -> int { MC_CHECK(!s->ch->a.active(), "unauthenticated", "active after a refused or altered response"); return 0; }, [] {}, false }; }, 0);
    add(v, "channel-altered-data", [](ER e) { auto s = sp<ChanScene>(); s->a.reset(mk_chain(e, "alice", "a1")); s->b.reset(mk_chain(e, "bob", "b1")); s->ch.reset(new Chan(e, s->a.get(), s->b.get(), 2, false)); s->ch->connect(); size_t n = s->ch->a.out.size(); for (int i = 0; i < 4; i++) s->ch->a.send("data"); s->bad = s->ch->a.out[n + 3]; s->bad[s->bad.size() - 5] ^= 1;
        return Inst{ [=] { s->ch->b.recv(s->bad); }, [=]() -> int { MC_CHECK(s->ch->b.got.empty(), "unauthenticated", "altered data delivered"); return 0; }, [] {}, false }; }, 0);
    for (int pinned = 0; pinned < 2; pinned++) for (int st = 0; st < 3; st++) add(v, std::string("channel-copy-") + (st == 0 ? "new" : st == 1 ? "waiting" : "active") + (pinned ? "-pinned" : ""), [=](ER e) { auto s = sp<ChanScene>(); s->a.reset(mk_chain(e, "alice", "a1")); s->b.reset(mk_chain(e, "bob", "b1")); s->ch.reset(new Chan(e, s->a.get(), s->b.get(), 2, pinned)); if (st == 1) s->ch->a.start(); if (st == 2) s->ch->connect(); return ret<OTrans>([=] { return wickr_transport_ctx_copy(s->ch->a.t.get()); }, [=](wickr_transport_ctx_t *t) { OPX(wickr_transport_ctx_get_status(t) == s->ch->a.status(), "status"); OPX(dmp(wickr_transport_ctx_get_local_identity_ptr(t)) == dmp(wickr_transport_ctx_get_local_identity_ptr(s->ch->a.t.get())), "identity"); }); });
    // the handshake by itself
    struct H { OHs a, b; OTPkt p1, p2, p3; Own<wickr_transport_handshake_res_t, wickr_transport_handshake_res_destroy> ra, rb; OChain ca, cb; };
    auto hs = [](ER e, bool pinned) { auto s = sp<H>(); s->ca.reset(mk_chain(e, "alice", "a1")); s->cb.reset(mk_chain(e, "bob", "b1")); OChain pa(pub_chain(e, s->ca.get())), pb(pub_chain(e, s->cb.get())); s->a.reset(wickr_transport_handshake_create(e, wickr_identity_chain_copy(s->ca.get()), pinned ? pb.release() : nullptr, hs_noop, 7, nullptr)); s->b.reset(wickr_transport_handshake_create(e, wickr_identity_chain_copy(s->cb.get()), pinned ? pa.release() : nullptr, hs_noop, 9, nullptr)); return s; };
    for (int pinned = 0; pinned < 2; pinned++) for (int stage = 0; stage < 6; stage++) { static const char *sn[] = { "start", "process-start", "verify", "process-response", "verify-response", "finalize" }; if (pinned && (stage == 2 || stage == 4)) continue;
        add(v, std::string("handshake-") + sn[stage] + (pinned ? "-pinned" : ""), [=](ER e) { auto s = hs(e, pinned); auto go = [=](int st) {
                if (st == 0) s->p1.reset(wickr_transport_handshake_start(s->a.get())); if (st == 1) s->p2.reset(wickr_transport_handshake_process(s->b.get(), s->p1.get())); if (st == 2) s->p2.reset(wickr_transport_handshake_verify_identity(s->b.get(), true));
                if (st == 3) s->p3.reset(wickr_transport_handshake_process(s->a.get(), s->p2.get())); if (st == 4) s->p3.reset(wickr_transport_handshake_verify_identity(s->a.get(), true)); if (st == 5) { s->ra.reset(wickr_transport_handshake_finalize(s->a.get())); s->rb.reset(wickr_transport_handshake_finalize(s->b.get())); } };
            for (int i = 0; i < stage; i++) { if (pinned && (i == 2 || i == 4)) continue; go(i); }
            return Inst{ [=] { go(stage); }, [=]() -> int { auto sa = wickr_transport_handshake_get_status(s->a.get()), sb = wickr_transport_handshake_get_status(s->b.get()); if (stage == 0) { OPX((bool)s->p1 == (sa == TRANSPORT_HANDSHAKE_STATUS_IN_PROGRESS), "status after start"); return (bool)s->p1; } if (stage == 1) { if (pinned) { OPX((bool)s->p2 == (sb == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION), "status of the responder"); return (bool)s->p2; } OPX(!s->p2, "response before the identity is approved"); return sb == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION; } if (stage == 2) { OPX((bool)s->p2 == (sb == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION), "status of the responder"); return (bool)s->p2; }
                if (stage == 3 && !pinned) return sa == TRANSPORT_HANDSHAKE_STATUS_PENDING_VERIFICATION; if (stage == 3 || stage == 4) { return sa == TRANSPORT_HANDSHAKE_STATUS_PENDING_FINALIZATION; } if (!s->ra || !s->rb) return 0; auto k = [](const wickr_stream_key_t *x) { OPX(x && x->cipher_key && x->evolution_key, "incomplete keys"); return str(x->cipher_key->key_data) + str(x->evolution_key); }; MC_CHECK(k(wickr_transport_handshake_res_get_local_key(s->ra.get())) == k(wickr_transport_handshake_res_get_remote_key(s->rb.get())) && k(wickr_transport_handshake_res_get_remote_key(s->ra.get())) == k(wickr_transport_handshake_res_get_local_key(s->rb.get())), "keys-disagree", "both sides finalised with different keys"); return 1; }, [=] {}, false }; }); }
    // signed transport packets
    struct TP { OTPkt p; OChain c, o; }; auto tp = [](ER e, bool sign) { auto s = sp<TP>(); s->c.reset(mk_chain(e, "alice", "a1")); s->o.reset(mk_chain(e, "alice", "a1")); wickr_transport_packet_meta_t m; wickr_transport_packet_meta_initialize_handshake(&m, 1, TRANSPORT_MAC_TYPE_EC_P521); s->p.reset(wickr_transport_packet_create(m, mk("body"))); if (sign && !wickr_transport_packet_sign(s->p.get(), &e, s->c.get())) { fprintf(stderr, "ops: sign\n"); abort(); } return s; };
    add(v, "transport-packet-sign", [=](ER e) { auto s = tp(e, false); auto r = sp<bool>(false); return Inst{ [=] { *r = wickr_transport_packet_sign(s->p.get(), &e, s->c.get()); }, [=]() -> int { if (!*r) return 0; OPX(wickr_transport_packet_verify(s->p.get(), &e, s->c.get()), "signature"); return 1; }, [] {}, false }; });
    for (int bad = 0; bad < 3; bad++) add(v, bad == 0 ? "transport-packet-verify" : bad == 1 ? "transport-packet-verify-other" : "transport-packet-verify-altered", [=](ER e) { auto s = tp(e, true); OBuf b(wickr_transport_packet_serialize(s->p.get())); Bytes x = str(b.get()); if (bad == 2) x[x.find("body")] ^= 1; Exact y(x); auto q = sp<OTPkt>(wickr_transport_packet_create_from_buffer(y)); return yes([=] { return wickr_transport_packet_verify(q->get(), &e, bad == 1 ? s->o.get() : s->c.get()); }); }, bad == 0);
    return v;
}
#undef CT
// copies, serialisations and parsings of every type, for one variant (path: the choices of the Maker)
std::vector<OpDef> generic(const Type &t, const std::vector<int> &path, bool full)
{
    std::vector<OpDef> v; struct S { void *x = nullptr, *y = nullptr; OBuf b; std::string text; const Type *t; ~S() { if (x) t->destroy(x); if (y) t->destroy(y); } }; auto build = [&t, path, full](ER e) { auto s = sp<S>(); s->t = &t; Maker m{ e, full }; m.fixed = path; m.use_fixed = true; s->x = t.make(m); if (!s->x) { fprintf(stderr, "ops: make %s\n", t.name); abort(); } s->text = t.text(s->x); return s; };
    auto out = [](Sp<S> s, std::function<void *()> f, std::function<void(void *)> verify) { return Inst{ [=] { s->y = f(); }, [=]() -> int { if (!s->y) return 0; verify(s->y); return 1; }, [=] { if (s->y) s->t->destroy(s->y); s->y = nullptr; }, true }; };
    if (t.copy) add(v, std::string("copy ") + t.name, [=, &t](ER e) { auto s = build(e); return out(s, [=] { return s->t->copy(s->x); }, [=](void *y) { OPX(s->t->text(y) == s->text, "the copy differs"); OPX(s->t->text(s->x) == s->text, "copying changed the original"); }); });
    if (t.ser) add(v, std::string("serialise ") + t.name, [=, &t](ER e) { auto s = build(e); OBuf w(t.ser(e, s->x)); auto want = sp<Bytes>(str(w.get())); return Inst{ [=] { s->b.reset(s->t->ser(e, s->x)); }, [=]() -> int { if (!s->b) return 0; OPX(is(s->b.get(), *want), "serialised form differs"); return 1; }, [=] { s->b.reset(); }, true }; }, -2);
    if (t.ser && t.parse) add(v, std::string("parse ") + t.name, [=, &t](ER e) { auto s = build(e); s->b.reset(t.ser(e, s->x)); void *y = s->b ? t.parse(e, s->b.get()) : nullptr; auto want = sp<std::string>(y ? t.text(y) : ""); if (y) t.destroy(y); return out(s, [=] { return s->b ? s->t->parse(e, s->b.get()) : nullptr; }, [=](void *y) { OPX(s->t->text(y) == *want, "the parsed object differs"); }); }, -2);
    return v;
}
}
