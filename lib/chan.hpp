// chan.hpp - transport endpoints with recording callbacks, and a channel between two of them
#pragma once
#include "w.hpp"
struct Endpoint {
    OTrans t; std::string name; wickr_crypto_engine_t e;
    std::vector<Bytes> out;                         // everything put on the wire, in order
    std::vector<wickr_transport_status> out_status; // status at that moment
    std::vector<Bytes> got;                         // everything delivered to the application
    std::vector<wickr_transport_status> got_status, states, states_actual;
    std::vector<Bytes> asked;                       // identities (serialised) the application was asked about
    wickr_transport_validate_identity_callback done = nullptr; bool pending = false;
    int auto_answer = 1;                            // -1: decide later, 0: refuse, 1: approve
    std::function<bool(const Bytes &)> policy;      // overrides auto_answer when set
    std::vector<std::pair<char, Bytes>> log;        // merged: 'o' out, 'g' got, 's' state, 'i' identity
    std::function<void(Endpoint &, wickr_transport_status)> on_state;
    std::function<void(Endpoint &, const Bytes &)> on_tx, on_rx;
    Endpoint() {} Endpoint(const Endpoint &) = delete;
    static Endpoint *of(const wickr_transport_ctx_t *c) { return (Endpoint *)wickr_transport_ctx_get_user_ctx(c); }
    static wickr_transport_callbacks_t callbacks()
    {
        wickr_transport_callbacks_t c;
        c.tx = [](const wickr_transport_ctx_t *x, wickr_buffer_t *d) { Endpoint *p = of(x); Bytes s = take(d); p->out.push_back(s); p->out_status.push_back(wickr_transport_ctx_get_status(x)); p->log.push_back({ 'o', s }); if (p->on_tx) p->on_tx(*p, s); };
        c.rx = [](const wickr_transport_ctx_t *x, wickr_buffer_t *d) { Endpoint *p = of(x); Bytes s = take(d); p->got.push_back(s); p->got_status.push_back(wickr_transport_ctx_get_status(x)); p->log.push_back({ 'g', s }); if (p->on_rx) p->on_rx(*p, s); };
        c.on_state = [](const wickr_transport_ctx_t *x, wickr_transport_status st) { Endpoint *p = of(x); p->states.push_back(st); p->states_actual.push_back(wickr_transport_ctx_get_status(x)); p->log.push_back({ 's', Bytes(1, (char)('0' + st)) }); if (p->on_state) p->on_state(*p, st); };
        c.on_identity_verify = [](const wickr_transport_ctx_t *x, wickr_identity_chain_t *id, wickr_transport_validate_identity_callback done) {
            Endpoint *p = of(x); OBuf b(wickr_identity_chain_serialize(id)); Bytes s = str(b.get()); wickr_identity_chain_destroy(&id); p->asked.push_back(s); p->log.push_back({ 'i', s }); p->done = done; p->pending = true;
            int ans = p->policy ? (int)p->policy(s) : p->auto_answer; if (ans >= 0) p->answer(ans == 1); };
        return c;
    }
    void open(const wickr_crypto_engine_t &eng, const wickr_identity_chain_t *self, const wickr_identity_chain_t *peer, uint32_t evo)
    {
        e = eng; wickr_identity_chain_t *l = wickr_identity_chain_copy(self), *r = wickr_identity_chain_copy(peer);
        t.reset(wickr_transport_ctx_create(eng, l, r, evo, callbacks(), this)); if (!t) { wickr_identity_chain_destroy(&l); wickr_identity_chain_destroy(&r); }
    }
    void start() { wickr_transport_ctx_start(t.get()); }
    void send(const Bytes &s) { Exact b(s); wickr_transport_ctx_process_tx_buffer(t.get(), b); }
    void recv(const Bytes &s) { Exact b(s); wickr_transport_ctx_process_rx_buffer(t.get(), b); }
    void answer(bool ok) { if (!done) return; pending = false; done(t.get(), ok); }
    wickr_transport_status status() const { return wickr_transport_ctx_get_status(t.get()); }
    bool active() const { return status() == TRANSPORT_STATUS_ACTIVE; }
    bool error() const { return status() == TRANSPORT_STATUS_ERROR; }
};
struct Chan {
    Endpoint a, b; size_t pa = 0, pb = 0; Endpoint *ini = &a;
    Chan(const wickr_crypto_engine_t &e, const wickr_identity_chain_t *ia, const wickr_identity_chain_t *ib, uint32_t evo, bool pinned)
    {
        OChain xa(pub_chain(e, ia)), xb(pub_chain(e, ib)); a.name = "a"; b.name = "b"; a.open(e, ia, pinned ? xb.get() : nullptr, evo); b.open(e, ib, pinned ? xa.get() : nullptr, evo);
    }
    void swap() { ini = &b; }
    void pump() { for (;;) { if (pa < a.out.size()) b.recv(a.out[pa++]); else if (pb < b.out.size()) a.recv(b.out[pb++]); else break; } }
    bool connect() { if (!a.t || !b.t) return false; ini->start(); pump(); return a.active() && b.active(); }
};
