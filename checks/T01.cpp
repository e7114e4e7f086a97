// T01: a channel becomes active only with an authenticated, approved peer and agreed keys
#include "chan.hpp"
static wickr_crypto_engine_t ENG, TOY, REAL;
// ---- the cast: A and B are honest, M is the attacker's own identity, F a valid identity that merely carries the names of another
struct Cast { OChain a, b, m, fa, fb; std::map<Bytes, char> owner; std::map<char, OEc> key; Bytes old_start, old_resp; std::map<std::pair<int, char>, Bytes> vser; };
static Cast toy_cast, real_cast, *cast;
static Bytes ser(const wickr_identity_chain_t *c) { return take(wickr_identity_chain_serialize(c)); }
static void make(Cast &c, const wickr_crypto_engine_t &e)
{
    c.a.reset(mk_chain(e, "alice", Bytes(32, 'a'))); c.b.reset(mk_chain(e, "bob", Bytes(32, 'b'))); c.m.reset(mk_chain(e, "mallory", Bytes(32, 'm'))); c.fa.reset(mk_chain(e, "alice", Bytes(32, 'a'))); c.fb.reset(mk_chain(e, "bob", Bytes(32, 'b')));
    struct { wickr_identity_chain_t *p; char n; } l[] = { { c.a.get(), 'A' }, { c.b.get(), 'B' }, { c.m.get(), 'M' }, { c.fa.get(), 'f' }, { c.fb.get(), 'g' } };
    for (auto o : { c.a.get(), c.b.get() }) { OChain r(wickr_identity_chain_create(wickr_identity_copy(c.m->root), wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(o->node->identifier), wickr_ec_key_copy(c.m->node->sig_key), wickr_ecdsa_result_copy(c.m->node->signature)))); c.owner[ser(r.get())] = 'M'; }   // a root vouches for keys, not for names: this is the attacker under another name
    for (auto &x : l) { c.owner[ser(x.p)] = x.n; c.key[x.n] = OEc(wickr_ec_key_copy(x.p->node->sig_key)); }
}
enum Expect { PIN, ONLY, ANY, PIN_M, REFUSE, EXP_N };
static const char *EN[] = { "pinned to the peer", "approves only the peer", "approves anyone", "pinned to the attacker", "refuses everyone" };
struct Node {
    Endpoint e; char who; bool ini; int exp; Bytes start, acted; std::vector<Bytes> in; int ops = 0; bool refused = false; Bytes pinned;
    void rng(int salt) { rng_seed(mc::seed() * 1000 + 100 * (salt + 1) + ops++); }
};
static const wickr_identity_chain_t *chain_of(char w) { return w == 'A' ? cast->a.get() : cast->b.get(); }
static const Bytes EMPTY;
// ---- minimal protobuf rewriting of handshake packets
struct Fld { int tag, wt; Bytes v; };
static bool pb(const Bytes &s, std::vector<Fld> &o) { size_t i = 0; auto vi = [&](uint64_t &v) { v = 0; int sh = 0; while (i < s.size()) { uint8_t c = s[i++]; v |= (uint64_t)(c & 127) << sh; sh += 7; if (!(c & 128)) return true; } return false; }; while (i < s.size()) { uint64_t k, n; if (!vi(k)) return false; Fld f{ (int)(k >> 3), (int)(k & 7), "" }; if (f.wt == 2) { if (!vi(n) || i + n > s.size()) return false; f.v = s.substr(i, n); i += n; } else if (f.wt == 0) { size_t j = i; if (!vi(n)) return false; f.v = s.substr(j, i - j); } else return false; o.push_back(f); } return true; }
static Bytes vint(uint64_t v) { Bytes s; do { s += (char)((v & 127) | (v > 127 ? 128 : 0)); v >>= 7; } while (v); return s; }
static Bytes unpb(const std::vector<Fld> &l) { Bytes s; for (auto &f : l) { s += vint(((uint64_t)f.tag << 3) | f.wt); if (f.wt == 2) s += vint(f.v.size()); s += f.v; } return s; }
struct Hs { Bytes head; int kind = 0; std::vector<Fld> f; Bytes mac; bool ok = false; };     // kind 2: start, 3: response
static size_t mac_len() { return EC_CURVE_NIST_P521.signature_size; }
static Hs split(const Bytes &p) { Hs h; if (p.size() < 10 + mac_len()) return h; h.head = p.substr(0, 10); h.mac = p.substr(p.size() - mac_len()); std::vector<Fld> o; if (!pb(p.substr(10, p.size() - 10 - mac_len()), o) || o.size() != 1 || o[0].wt != 2 || !pb(o[0].v, h.f)) return h; h.kind = o[0].tag; h.ok = true; return h; }
static Bytes body(const Hs &h) { return h.head + unpb({ { h.kind, 2, unpb(h.f) } }); }
static void put(Hs &h, int tag, int wt, const Bytes &v, bool drop = false) { for (size_t i = 0; i < h.f.size(); i++) if (h.f[i].tag == tag) { if (drop) h.f.erase(h.f.begin() + i); else h.f[i].v = v; return; } if (!drop) h.f.push_back({ tag, wt, v }); }
static Bytes get(const Hs &h, int tag) { for (auto &f : h.f) if (f.tag == tag) return f.v; return ""; }
static Bytes sign_m(const Bytes &b) { Exact d(b); OSig s(ENG.wickr_crypto_engine_ec_sign(cast->m->node->sig_key, d, DIGEST_SHA_256)); { OSig s2(ENG.wickr_crypto_engine_ec_sign(cast->m->node->sig_key, d, DIGEST_SHA_512)); if (s2) s = std::move(s2); } OBuf x(wickr_ecdsa_result_serialize(s.get())); return b + str(x.get()); }
static bool signed_by(const Bytes &p, char w) { if (p.size() <= mac_len()) return false; Exact d(p.substr(0, p.size() - mac_len())), m(p.substr(p.size() - mac_len())); OSig s(wickr_ecdsa_result_create_from_buffer(m)); return s && ENG.wickr_crypto_engine_ec_verify(s.get(), cast->key[w].get(), d); }
// ---- identities the attacker may run the protocol with, while impersonating x
enum { V_TRUE, V_SAMENAME, V_UNLINKED, V_STOLEN, V_NODESIG, V_ROOTONLY, V_N };
static const char *VN[] = { "its own identity", "a valid identity of the same names", "the victim's root and its own device", "the victim's chain but its own signing key", "its own device key under the victim's signature", "its own root over the victim's device name" };
static wickr_identity_chain_t *variant(int v, char x)
{
    const wickr_identity_chain_t *t = chain_of(x), *m = cast->m.get(); OChain tp(pub_chain(ENG, t));
    auto id = [](const wickr_identity_t *p) { return wickr_identity_copy(p); };
    switch (v) {
    case V_TRUE: return wickr_identity_chain_copy(m); case V_SAMENAME: return wickr_identity_chain_copy(x == 'A' ? cast->fa.get() : cast->fb.get());
    case V_UNLINKED: return wickr_identity_chain_create(id(tp->root), id(m->node));
    case V_STOLEN: { wickr_identity_chain_t *c = wickr_identity_chain_copy(tp.get()); c->node->sig_key->pri_data = wickr_buffer_copy(m->node->sig_key->pri_data); return c; }
    case V_NODESIG: return wickr_identity_chain_create(id(tp->root), wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(tp->node->identifier), wickr_ec_key_copy(m->node->sig_key), wickr_ecdsa_result_copy(tp->node->signature)));
    default: return wickr_identity_chain_create(id(m->root), wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(tp->node->identifier), wickr_ec_key_copy(m->node->sig_key), wickr_ecdsa_result_copy(m->node->signature)));
    }
}

struct World {
    std::vector<std::unique_ptr<Node>> n; std::vector<Bytes> pool; std::map<Bytes, int> known; std::string hist; bool later; std::vector<std::unique_ptr<Endpoint>> mine; int mops = 0;
    Node &add(char who, bool ini, int exp)
    {
        n.emplace_back(new Node); Node &x = *n.back(); x.who = who; x.ini = ini; x.exp = exp; char peer = who == 'A' ? 'B' : 'A'; OChain pin; if (exp == PIN) pin.reset(pub_chain(ENG, chain_of(peer))); if (exp == PIN_M) pin.reset(pub_chain(ENG, cast->m.get())); if (pin) x.pinned = ser(pin.get());
        Bytes want = ser(chain_of(peer)); Node *q = &x; x.e.policy = [=](const Bytes &s) { bool ok = exp == ANY || exp == PIN || exp == PIN_M || (exp == ONLY && s == want); if (!ok) q->refused = true; return ok; };
        if (later) { x.e.policy = nullptr; x.e.auto_answer = -1; }
        x.rng((int)n.size()); x.e.open(ENG, chain_of(who), pin.get(), 2); MC_CHECK(x.e.t, "setup", "endpoint"); return x;
    }
    bool would_approve(Node &x) { char peer = x.who == 'A' ? 'B' : 'A'; return x.exp == ANY || x.exp == PIN || x.exp == PIN_M || (x.exp == ONLY && x.e.asked.back() == ser(chain_of(peer))); }
    void learn(const Bytes &p) { if (known.count(p)) return; known[p] = (int)pool.size(); pool.push_back(p); }
    int id(Node &x) { for (size_t i = 0; i < n.size(); i++) if (n[i].get() == &x) return (int)i; return 99; }
    void start(int i) { n[i]->rng(i); n[i]->e.start(); if (!n[i]->e.out.empty()) { n[i]->start = n[i]->e.out[0]; learn(n[i]->start); } }
    bool deliver(int i, const Bytes &p) { Node &x = *n[i]; x.rng(i); size_t o = x.e.out.size(); x.in.push_back(p); if (x.in.size() == 1) x.acted = p; x.e.recv(p); for (size_t k = o; k < x.e.out.size(); k++) learn(x.e.out[k]); mc::step(); return true; }
    void answer(int i) { Node &x = *n[i]; x.rng(i); bool ok = would_approve(x); if (!ok) x.refused = true; size_t o = x.e.out.size(); x.e.answer(ok); for (size_t k = o; k < x.e.out.size(); k++) learn(x.e.out[k]); mc::step(); }
    char owner(Node &x) { Bytes s = !x.pinned.empty() ? x.pinned : x.e.asked.size() == 1 ? x.e.asked[0] : ""; auto it = cast->owner.find(s); return it == cast->owner.end() ? '?' : it->second; }
    // does r's session belong with i's
    bool paired(Node &i, Node &r) { return i.ini && !r.ini && !i.start.empty() && r.acted == i.start && !r.e.out.empty() && i.acted == r.e.out[0]; }
    static bool carries(Endpoint &s, Endpoint &r, const Bytes &m) { OTrans cs(wickr_transport_ctx_copy(s.t.get())), cr(wickr_transport_ctx_copy(r.t.get())); if (!cs || !cr) return false; size_t o = s.out.size(), g = r.got.size(); Exact b(m); auto st = s.states.size(), rt = r.states.size(); wickr_transport_ctx_process_tx_buffer(cs.get(), b); bool ok = false; if (s.out.size() > o) { Exact p(s.out.back()); wickr_transport_ctx_process_rx_buffer(cr.get(), p); ok = r.got.size() == g + 1 && r.got.back() == m && wickr_transport_ctx_get_status(cr.get()) == TRANSPORT_STATUS_ACTIVE; } s.out.resize(o); s.out_status.resize(o); r.got.resize(g); r.got_status.resize(g); s.states.resize(st); s.states_actual.resize(st); r.states.resize(rt); r.states_actual.resize(rt); return ok; }
    void check()
    {
        for (auto &up : n) { Node &x = *up; if (!x.e.active()) {
                if (x.refused) MC_CHECK(x.e.error(), "refused-not-error", "%c refused its peer and is in state %d: %s", x.who, x.e.status(), hist.c_str());
                if (!x.in.empty() && !x.e.error()) MC_CHECK(later && x.e.pending, "not-error", "%c acted on a message and is in state %d: %s", x.who, x.e.status(), hist.c_str());
                continue; }
            char o = owner(x); const char *role = x.ini ? "initiator" : "responder"; bool stray = false; for (auto s : x.e.states) if (s == TRANSPORT_STATUS_ERROR) stray = true;
            MC_CHECK(!stray, "error-to-active", "%c became active after an error: %s", x.who, hist.c_str());
            MC_CHECK(o != '?', "unknown-peer", "%c (%s, %s) is active with an identity that does not verify or was never reported: %s", x.who, role, EN[x.exp], hist.c_str());
            MC_CHECK(!x.refused && x.exp != REFUSE, "refused-active", "%c (%s, %s) is active with a refused identity: %s", x.who, role, EN[x.exp], hist.c_str());
            char peer = x.who == 'A' ? 'B' : 'A'; if (x.exp == PIN || x.exp == ONLY) MC_CHECK(o == peer, "wrong-peer", "%c (%s, %s) is active with %c: %s", x.who, role, EN[x.exp], o, hist.c_str()); if (x.exp == PIN_M) MC_CHECK(o == 'M', "wrong-peer", "%c (%s) is active with %c: %s", x.who, EN[x.exp], o, hist.c_str());
            MC_CHECK(signed_by(x.acted, o), "not-signed", "%c (%s, %s) is active with %c on a message %c did not sign: %s", x.who, role, EN[x.exp], o, o, hist.c_str());
            const wickr_identity_chain_t *rep = wickr_transport_ctx_get_remote_identity_ptr(x.e.t.get()); if (rep) MC_CHECK(cast->owner.count(ser(rep)) && cast->owner[ser(rep)] == o, "wrong-report", "%c reports another identity than the one it authenticated: %s", x.who, hist.c_str());
            if (o == 'A' || o == 'B') {
                bool produced = false; for (auto &y : n) if (y->who == o) for (auto &p : y->e.out) if (p == x.acted) produced = true; if (!cast->old_start.empty() && o == 'A' && x.acted == cast->old_start) produced = true; MC_CHECK(produced, "not-produced", "%c (%s, %s) is active with %c on a message %c never sent: %s", x.who, role, EN[x.exp], o, o, hist.c_str());
                if (x.ini) { int partners = 0; for (auto &y : n) if (y->who == o && paired(x, *y) && owner(*y) == x.who) { partners++; if (y->e.active()) { MC_CHECK(World::carries(x.e, y->e, "probe from the initiator") && World::carries(y->e, x.e, "probe from the responder"), "keys-differ", "%c is active with %c but their keys differ: %s", x.who, o, hist.c_str()); mc::outcome("agreed"); } }
                    MC_CHECK(partners == 1, "no-partner", "%c (initiator, %s) is active with %c, %d sessions of %c took part in this run with it: %s", x.who, EN[x.exp], o, partners, o, hist.c_str()); }
            }
            mc::outcome(o == 'M' || o == 'f' || o == 'g' ? "active with the attacker" : "active with an honest peer");
        }
    }
    // keys are fresh: data of one session never opens in another
    void cross() { std::vector<Endpoint *> act; std::vector<Node *> nd; for (auto &x : n) if (x->e.active()) { act.push_back(&x->e); nd.push_back(x.get()); } for (auto &x : mine) if (x->active()) { act.push_back(x.get()); nd.push_back(nullptr); }
        for (size_t i = 0; i < act.size(); i++) for (size_t j = 0; j < act.size(); j++) { if (i == j || (!nd[i] && !nd[j])) continue; bool pair = nd[i] && nd[j] && (paired(*nd[i], *nd[j]) || paired(*nd[j], *nd[i])); if (pair) continue; if (nd[i] ? owner(*nd[i]) == 'A' || owner(*nd[i]) == 'B' : owner(*nd[j]) == 'A' || owner(*nd[j]) == 'B') MC_CHECK(!carries(*act[i], *act[j], "cross probe"), "not-fresh", "data of one session opens in another one%s: %s", nd[i] && nd[j] ? "" : " of the attacker", hist.c_str()); } }
    uint64_t fp() { mc::Hash h; for (auto &x : n) { h.u(x->who).u(x->e.status()).u(x->e.out.size()); for (auto &p : x->e.out) h.s(p); if (x->e.error()) continue; h.u(x->in.size()).u(x->e.pending); for (auto &p : x->in) h.s(p); } return h.h; }
    // a fresh attacker endpoint, as initiator or answering a start; the message it produces
    Bytes attacker(int v, char x, bool ini, const Bytes &in, bool pin) { mine.emplace_back(new Endpoint); Endpoint &m = *mine.back(); OChain c(variant(v, x)), peer; if (pin) peer.reset(pub_chain(ENG, chain_of(x == 'A' ? 'B' : 'A'))); rng_seed(mc::seed() * 77 + mops++); m.open(ENG, c.get(), peer.get(), 2); if (!m.t) return ""; if (ini) m.start(); else m.recv(in); return m.out.empty() ? "" : m.out[0]; }
};

int main(int argc, char **argv)
{
    mc::init("T01", "model_checking", "Dolev-Yao exploration of the real handshake: every schedule, up to the depth, of an attacker delivering, replaying, reflecting and crafting (own sessions under 6 identities, re-signing, field splicing) handshake messages to endpoints of two honest parties under 5 expectations each", argc, argv);
    rng_install(); rng_seed(mc::seed()); TOY = toy_engine(); REAL = real_engine(); ENG = TOY; make(toy_cast, TOY); make(real_cast, REAL); cast = &toy_cast;
    for (int r = 0; r < 2; r++) { ENG = r ? REAL : TOY; cast = r ? &real_cast : &toy_cast; rng_seed(mc::seed() + 4242); { Chan c(ENG, cast->a.get(), cast->b.get(), 2, true); if (c.connect()) { cast->old_start = c.a.out[0]; cast->old_resp = c.b.out[0]; } } for (int v = 0; v < V_N; v++) for (char x : { 'A', 'B' }) { OChain c(variant(v, x)); cast->vser[{ v, x }] = ser(c.get()); } }
    mc::on_exec([] { rng_seed(mc::seed() + 7); ENG = TOY; cast = &toy_cast; });
    mc::assume("The toy engine stands for ideal primitives; the attacker computes with its own keys only");
    // (1) the network as attacker: any message to anybody, several sessions and roles per party
    auto plain = [&](int depth) {
        World w; w.later = mc::choose(2, "answers later"); int ea = mc::choose(EXP_N, "A"), eb = mc::choose(EXP_N, "B"); w.add('A', true, ea); w.add('A', true, ea); w.add('B', false, eb); w.add('B', false, eb); w.add('A', false, ea); w.add('B', true, eb); w.start(0); w.start(1); w.start(5); w.hist = std::string("A ") + EN[ea] + ", B " + EN[eb] + ": ";
        for (int d = 0; d < depth; d++) {
            struct Op { int n, m; }; std::vector<Op> en; for (int i = 0; i < (int)w.n.size(); i++) { if (w.n[i]->e.error()) continue; if (w.n[i]->e.pending) en.push_back({ i, -1 }); for (int m = 0; m < (int)w.pool.size(); m++) en.push_back({ i, m }); }
            if (en.empty()) break; Op o = en[mc::choose((int)en.size(), "move")]; if (o.m < 0) { w.hist += "node " + std::to_string(o.n) + " answers; "; w.answer(o.n); } else { w.hist += "message " + std::to_string(o.m) + " to node " + std::to_string(o.n) + "; "; w.deliver(o.n, w.pool[o.m]); }
            w.check(); uint64_t f = mc::Hash().u(w.later).u(ea).u(eb).u(w.fp()).h; mc::state(f); if (mc::seen(mc::Hash{ f }.u(d).h)) { mc::prune(); }
        }
        w.cross(); };
    mc::part("network", [&] { plain(mc::tier(3, 5)); });
    // (2) crafted messages
    auto crafted = [&](int depth, bool real, bool small) {
        if (real) { ENG = REAL; cast = &real_cast; }
        World w; w.later = !small && mc::choose(2, "answers later"); int ea = mc::choose(EXP_N, "A"), eb = mc::choose(EXP_N, "B"); w.add('A', true, ea); w.add('B', false, eb); w.start(0); w.hist = std::string("A ") + EN[ea] + ", B " + EN[eb] + ": ";
        // an older, finished session supplies material
        Bytes &old_start = cast->old_start, &old_resp = cast->old_resp;
        for (int d = 0; d < depth; d++) {
            int t = mc::choose(2, "to"); Node &x = *w.n[t]; if (x.e.error()) break; if (x.e.pending) { int a = mc::choose(2, "answer"); if (a) { w.answer(t); w.check(); continue; } }
            std::vector<std::function<Bytes()>> mv; std::vector<std::string> nm; auto M = [&](const std::string &s, std::function<Bytes()> f) { mv.push_back(f); nm.push_back(s); };
            char imp = x.who == 'A' ? 'B' : 'A'; Bytes st = w.pool[0], rs = w.pool.size() > 1 ? w.pool[1] : old_resp; Bytes vict_start = t == 0 ? x.start : "";
            M("the start", [=] { return st; }); M("the response", [=] { return rs; }); if (!small) { M("an old start", [=] { return old_start; }); M("an old response", [=] { return old_resp; }); }
            for (int v = 0; v < V_N; v++) { if (t == 1) for (int pin = 0; pin < 2; pin++) M(std::string("a start made with ") + VN[v], [&w, v, imp, pin] { return w.attacker(v, imp, true, "", pin); }); else M(std::string("a response made with ") + VN[v], [&w, v, imp, vict_start] { return w.attacker(v, imp, false, vict_start, false); }); } if (t == 0) for (int v = 0; v < V_N; v++) { Bytes cb = cast->vser[{ v, imp }]; M(std::string("a response made with and naming ") + VN[v], [&w, v, imp, vict_start, cb] { Hs h = split(w.attacker(v, imp, false, vict_start, false)); if (!h.ok) return Bytes(); put(h, 4, 2, cb); return sign_m(body(h)); }); }
            for (int s = 0; s < 2; s++) { Bytes src = s ? rs : st; if (!split(src).ok || (s ? 3 : 2) != split(src).kind) continue; int chain_tag = s ? 4 : 2, eph_tag = s ? 2 : 3; std::string sn = s ? "the response" : "the start"; Bytes other = s ? old_resp : old_start;
                auto R = [=, &M](const std::string &what, std::function<void(Hs &)> f) { for (int sg = 0; sg < 2; sg++) M(sn + " with " + what + (sg ? ", signed by the attacker" : ", signature kept"), [=] { Hs h = split(src); f(h); Bytes b = body(h); return sg ? sign_m(b) : b + h.mac; }); };
                M(sn + " signed by the attacker", [=] { return sign_m(body(split(src))); });
                M(sn + " without its signature", [=] { return Bytes(1, (char)((src[0] & 0xf0) | TRANSPORT_MAC_TYPE_NONE)) + src.substr(1, src.size() - 1 - mac_len()); }); M(sn + " marked as protected by a cipher", [=] { return Bytes(1, (char)((src[0] & 0xf0) | TRANSPORT_MAC_TYPE_AUTH_CIPHER)) + src.substr(1); });
                M(sn + " with an empty signature", [=] { return src.substr(0, src.size() - mac_len()) + Bytes(mac_len(), 0); }); M(sn + " with the signature of another message", [=] { return src.substr(0, src.size() - mac_len()) + other.substr(other.size() - mac_len()); }); M(sn + " under another protocol version", [=] { Bytes p = src; p[1] = 2; return p; });
                M(sn + " with altered signature padding", [=] { Bytes p = src; size_t m = p.size() - mac_len(); if ((uint8_t)p[m + 1] > 0) p[m + 2] ^= 1; else p[m + 1] ^= 1; return p; });
                for (int v = 0; v < V_N; v++) { if (small && v > V_SAMENAME) continue; Bytes cb = cast->vser[{ v, imp }]; R(std::string("the identity replaced by ") + VN[v], [=](Hs &h) { put(h, chain_tag, 2, cb); }); }
                { Bytes va = ser(chain_of(x.who)), vb = ser(chain_of(imp)); R("the identity replaced by the receiver's", [=](Hs &h) { put(h, chain_tag, 2, va); }); R("the identity replaced by the peer's", [=](Hs &h) { put(h, chain_tag, 2, vb); }); }
                R("no identity", [=](Hs &h) { put(h, chain_tag, 2, "", true); }); { Bytes mk_ = str(cast->m->node->sig_key->pub_data), oe = get(split(other), eph_tag); R("the attacker's ephemeral key", [=](Hs &h) { put(h, eph_tag, 2, mk_); }); R("the ephemeral key of another run", [=](Hs &h) { put(h, eph_tag, 2, oe); }); R("no ephemeral key", [=](Hs &h) { put(h, eph_tag, 2, "", true); }); }
                if (s) { Bytes od = get(split(old_resp), 3); R("the key data of another run", [=](Hs &h) { put(h, 3, 2, od); }); R("no key data", [=](Hs &h) { put(h, 3, 2, "", true); }); if (t == 0) { auto mine = [&w, vict_start](int tag) { return get(split(w.attacker(V_TRUE, 'B', false, vict_start, false)), tag); }; R("the attacker's key data", [=](Hs &h) { put(h, 3, 2, mine(3)); }); R("the attacker's key data and ephemeral key", [&w, vict_start](Hs &h) { Hs m = split(w.attacker(V_TRUE, 'B', false, vict_start, false)); put(h, 3, 2, get(m, 3)); put(h, 2, 2, get(m, 2)); }); } }
                else R("the identity request flipped", [=](Hs &h) { put(h, 4, 0, Bytes(1, get(h, 4)[0] ? 0 : 1)); });
            }
            int k = mc::choose((int)mv.size(), "message"); Bytes p = mv[k](); w.hist += nm[k] + " to " + x.who + "; "; w.deliver(t, p); w.check(); uint64_t f = mc::Hash().u(w.later).u(ea).u(eb).u(real).u(w.fp()).h; mc::state(f); if (d + 1 < depth && mc::seen(mc::Hash{ f }.u(d).u(depth).h)) mc::prune();
        }
        w.cross(); };
    mc::part("crafted", [&] { crafted(mc::tier(2, 3), false, mc::tier(1, 0)); });
    mc::part("crafted-one-step", [&] { crafted(1, false, false); });
    mc::part("crafted-real", [&] { crafted(mc::tier(1, 2), true, true); });
    // (3) every single-bit change and truncation of the two handshake messages
    auto bits = [&](bool real) { if (real) { ENG = REAL; cast = &real_cast; } World w; w.later = false; int e = mc::choose(2, "expectation") ? ANY : PIN; int msg = mc::choose(2, "message"); w.add('A', true, e); w.add('B', false, e); w.start(0); if (msg) w.deliver(1, w.pool[0]); Bytes p = w.pool[msg]; size_t from = real ? p.size() - mac_len() : 0; int i = (int)from + mc::choose((int)(p.size() - from) / (real ? mc::tier(4, 1) : 1), "byte"), b = real ? mc::tier(4, mc::choose(8, "bit")) : mc::choose(9, "bit"); Bytes m = p; if (b < 8) m[i] ^= (char)(1 << b); else m.resize(i); w.hist = "byte " + std::to_string(i) + " bit " + std::to_string(b) + " of the " + (msg ? "response" : "start") + " changed; "; w.deliver(msg ? 0 : 1, m); w.check(); Node &r = *w.n[msg ? 0 : 1]; MC_CHECK(r.e.error(), "altered-accepted", "state %d: %s", r.e.status(), w.hist.c_str()); };
    mc::part("every-bit", [&] { bits(false); }); mc::part("signature-bits-real", [&] { bits(true); });
    return mc::finish();
}
