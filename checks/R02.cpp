#include "ops.hpp"
#include "use.hpp"
#include <openssl/err.h>
// R02: copies are independent, everything is released exactly once
static wickr_crypto_engine_t E; static bool full; static int depth;
// ---- histories over up to three objects that descend from one ------------------------------------
struct Slot { void *o = nullptr; std::vector<int> hist; };
static bool opaque(const Type &t) { return !strncmp(t.name, "transport_ctx", 13) || !strncmp(t.name, "transport_handshake", 19); }
static void scribble(const Type &t, void *o) { Dump d(false); t.dump(d, o); for (auto &b : d.bufs) for (size_t i = 0; i < b.length; i++) b.bytes[i] ^= 0x5a; }
static uint64_t hseed(const std::vector<int> &h) { mc::Hash x; for (int i : h) x.u(i); return x.h | 1; }
static Bytes act(const Type &t, const std::vector<Use> &us, void *o, const std::vector<int> &h)      // perform the last action of h
{
    rng_seed(hseed(h)); int k = h.back(); if (k < 0) { scribble(t, o); return ""; } return us[k].f(E, o);
}
static const std::pair<std::string, Bytes> &expected(const Type &t, const std::vector<Use> &us, const std::vector<int> &path, const std::vector<int> &h)      // an object without any copies
{
    static std::map<std::string, std::pair<std::string, Bytes>> memo; std::string key = t.name; for (int i : path) key += "," + std::to_string(i); key += ":"; for (int i : h) key += "," + std::to_string(i);
    auto it = memo.find(key); if (it != memo.end()) return it->second; if (memo.size() > 200000) memo.clear();
    bool was = trk::on; trk::on = false; auto keep = feed(); rng_seed(mc::seed() + 7); Maker m{ E, full }; m.fixed = path; m.use_fixed = true; void *o = t.make(m); Bytes out; std::vector<int> p; for (int i : h) { p.push_back(i); out = act(t, us, o, p); } std::string text = t.text(o); t.destroy(o); feed() = keep; trk::on = was; return memo.emplace(key, std::make_pair(text, out)).first->second;
}
static void disjoint(const Type &t, const void *a, const void *b)
{
    Dump x(false), y(false); t.dump(x, a); t.dump(y, b); for (auto &p : x.bufs) for (auto &q : y.bufs) MC_CHECK(p.bytes != q.bytes || !p.length, t.name, "%s: a copy shares a buffer of %zu bytes with the original", t.name, p.length);
}
static void histories()
{
    const Type &t = mc::pick(types(), "type"); static std::map<std::string, std::vector<Use>> cache; if (!cache.count(t.name)) cache[t.name] = uses(t); const std::vector<Use> &us = cache[t.name];
    trk::reset(); trk::on = true; int64_t held = ossl_blocks(); { Maker m{ E, full }; Slot s[3]; s[0].o = t.make(m); std::vector<int> path = m.took; MC_CHECK(s[0].o, "make", "%s: cannot be made", t.name); std::string why; int live = 1;
        auto all = [&](const char *after) { for (int i = 0; i < 3; i++) if (s[i].o) { auto &x = expected(t, us, path, s[i].hist); std::string now = t.text(s[i].o); MC_CHECK(now == x.first, t.name, "%s: after %s (%s), object %d is not as it would be on its own:\n  is     %s\n  expect %s", t.name, why.c_str(), after, i, now.c_str(), x.first.c_str()); } };
        for (int n = 0; n < depth && live; n++)
        {
            struct A { int kind, i, u; }; std::vector<A> as; bool first_free = true; int nu = (int)us.size(); (void)first_free;
            for (int i = 0; i < 3; i++) if (s[i].o) { bool spoiled = false; for (int h : s[i].hist) spoiled |= h < 0; if (live < 3 && t.copy && !spoiled) as.push_back({ 0, i, 0 }); if (n) as.push_back({ 1, i, 0 }); if (!opaque(t) && !spoiled) as.push_back({ 2, i, -1 }); if (!spoiled) for (int u = 0; u < nu; u++) as.push_back({ 2, i, u }); }
            if (as.empty()) break; A a = as[mc::choose((int)as.size(), "action")]; mc::step();
            if (a.kind == 0) { int j = 0; while (s[j].o) j++; s[j].o = t.copy(s[a.i].o); why += " copy " + std::to_string(a.i) + "->" + std::to_string(j); MC_CHECK(s[j].o, t.name, "%s: cannot be copied after%s", t.name, why.c_str()); s[j].hist = s[a.i].hist; live++; disjoint(t, s[a.i].o, s[j].o); all("copy"); }
            else if (a.kind == 1) { t.destroy(s[a.i].o); s[a.i].o = nullptr; s[a.i].hist.clear(); live--; why += " destroy " + std::to_string(a.i); all("destroy"); }
            else { s[a.i].hist.push_back(a.u); Bytes out = act(t, us, s[a.i].o, s[a.i].hist); why += std::string(" ") + (a.u < 0 ? "overwrite" : us[a.u].name) + " " + std::to_string(a.i); auto &x = expected(t, us, path, s[a.i].hist); MC_CHECK(out == x.second, t.name, "%s: after%s, the last use shows something else than on an object of its own:\n  is     %.600s\n  expect %.600s", t.name, why.c_str(), out.c_str(), x.second.c_str()); all("use"); }
            mc::note("%s:%s", t.name, why.c_str()); mc::state(mc::Hash().s(t.name).s(why).u(hseed(path)).h);
        }
        bool back = live > 1 && mc::flip("destroy the last first"); for (int k = 0; k < 3; k++) { int i = back ? 2 - k : k; if (s[i].o) { t.destroy(s[i].o); s[i].o = nullptr; all("final destroy"); } }
        mc::outcome(t.name); sink_reset(); feed().clear(); }
    trk::on = false; MC_CHECK(trk::live() == 0, "leak", "%s: never released: %s", t.name, trk::describe_live().c_str()); (void)held;
}
// ---- every operation, several times over ----------------------------------------------------------
static std::vector<OpDef> OPS;
static void operations()
{
    const OpDef &op = OPS[mc::choose((int)OPS.size(), "operation")]; int64_t held = 0, grown = -1; mc::note("%s", op.name.c_str());
    for (int turn = 0; turn < 3; turn++) { rng_seed(mc::seed() + 7); held = ossl_blocks(); trk::reset(); trk::on = true; { Inst i = op.make(E); for (int k = 0; k < (i.again ? 3 : 1); k++) { i.run(); int r = i.check(); MC_CHECK(op.expect < 0 || r == op.expect, "result", "%s: result %d the %d. time", op.name.c_str(), r, k + 1); i.clear(); mc::step(); } } trk::on = false; ERR_clear_error(); grown = ossl_blocks() - held; MC_CHECK(trk::live() == 0, "leak", "%s: never released: %s", op.name.c_str(), trk::describe_live().c_str()); if (!grown) break; }
    MC_CHECK(grown == 0, "openssl-leak", "%s: every time, %lld objects of OpenSSL are never released", op.name.c_str(), (long long)grown); mc::outcome("released"); mc::state(mc::Hash().s(op.name).h);
}
// ---- references to a stream --------------------------------------------------------------------------
static void references()
{
    trk::reset(); trk::on = true; { wickr_stream_ctx_t *s = wickr_stream_ctx_create(E, wickr_stream_key_create_rand(E, CIPHER_AES256_GCM, 4), STREAM_DIRECTION_ENCODE), *c = nullptr; int r = 1, rc = 0; uint64_t q = 0, qc = 0; std::string why;
        for (int n = 0; n < mc::tier(7, 10) && (r || rc); n++)
        {
            int a = mc::choose(6, "action"); mc::step(); Exact d("text");
            if (a == 0) { if (!r) mc::prune(); MC_CHECK(wickr_stream_ctx_ref_up(s), "ref", "ref_up fails"); r++; why += " up"; }
            if (a == 1) { if (!r) mc::prune(); wickr_stream_ctx_t *x = s; wickr_stream_ctx_destroy(&x); r--; why += " down"; if (!r) s = nullptr; }
            if (a == 2) { if (!r) mc::prune(); OCipher x(wickr_stream_ctx_encode(s, d, nullptr, ++q)); MC_CHECK(x && s->last_seq == q, "ref", "encode fails after%s", why.c_str()); why += " encode"; }
            if (a == 3) { if (!r || c) mc::prune(); c = wickr_stream_ctx_copy(s); MC_CHECK(c, "ref", "copy fails after%s", why.c_str()); rc = 1; qc = q; why += " copy"; }
            if (a == 4) { if (!rc) mc::prune(); wickr_stream_ctx_t *x = c; wickr_stream_ctx_destroy(&x); rc--; why += " copy-down"; if (!rc) c = nullptr; }
            if (a == 5) { if (!rc) mc::prune(); OCipher x(wickr_stream_ctx_encode(c, d, nullptr, ++qc)); MC_CHECK(x && c->last_seq == qc, "ref", "encode on the copy fails after%s", why.c_str()); why += " copy-encode"; }
            mc::note("%s", why.c_str()); if (s) MC_CHECK(s->last_seq == q, "ref", "numbers of the original changed"); mc::state(mc::Hash().s(why).h);
        }
        while (r) { wickr_stream_ctx_t *x = s; wickr_stream_ctx_destroy(&x); r--; } while (rc) { wickr_stream_ctx_t *x = c; wickr_stream_ctx_destroy(&x); rc--; } mc::outcome("references"); }
    trk::on = false; MC_CHECK(trk::live() == 0, "leak", "stream references: never released: %s", trk::describe_live().c_str());
}
// ---- channels, with copies of endpoints replacing them in mid-flight ----------------------------------
static void channels()
{
    trk::reset(); trk::on = true; std::string why; {
        bool pinned = mc::flip("pinned"); OChain ia(mk_chain(E, "alice", "a1")), ib(mk_chain(E, "bob", "b1")); Chan ch(E, ia.get(), ib.get(), 2, pinned); ch.a.auto_answer = ch.b.auto_answer = -1; std::vector<std::unique_ptr<Endpoint>> old;
        int start = mc::choose(3, "from"); if (start) { ch.a.start(); if (start == 2) { for (int i = 0; i < 4; i++) { ch.pump(); if (ch.a.pending) ch.a.answer(true); if (ch.b.pending) ch.b.answer(true); } MC_CHECK(ch.a.active() && ch.b.active(), "connect", "endpoints do not connect (%d %d)", ch.a.status(), ch.b.status()); } }
        for (int n = 0; n < mc::tier(4, 6); n++)
        {
            int a = mc::choose(12, "action"); Endpoint &p = a % 2 ? ch.b : ch.a; size_t &from = a % 2 ? ch.pa : ch.pb; Endpoint &q = a % 2 ? ch.a : ch.b; mc::step();
            switch (a / 2) {
            case 0: if (from >= q.out.size()) mc::prune(); p.recv(q.out[from++]); why += " deliver"; break;
            case 1: p.send("text"); why += " send"; break;
            case 2: if (!p.pending) mc::prune(); p.answer(true); why += " approve"; break;
            case 3: { wickr_transport_ctx_t *c = wickr_transport_ctx_copy(p.t.get()); MC_CHECK(c, "copy", "an endpoint cannot be copied after%s", why.c_str()); MC_CHECK(wickr_transport_ctx_get_status(c) == p.status(), "copy", "the copy of an endpoint has another status after%s", why.c_str()); p.t.reset(c); why += " replace-by-copy"; break; }
            case 4: p.recv("junk"); why += " junk"; break;
            case 5: if (!p.pending) mc::prune(); p.answer(false); why += " refuse"; break; }
            why += a % 2 ? "(b)" : "(a)"; mc::note("%s", why.c_str()); mc::state(mc::Hash().u(pinned).u(start).s(why).h);
        }
        // an undisturbed connection carries data whatever was replaced
        if (why.find("junk") == Bytes::npos && why.find("refuse") == Bytes::npos && !ch.a.error() && !ch.b.error()) { bool used = ch.a.active() && ch.b.active(); if (used) { size_t g = ch.b.got.size(); ch.pump(); g = ch.b.got.size(); ch.a.send("the end"); ch.pump(); MC_CHECK(ch.b.got.size() == g + 1 && ch.b.got.back() == "the end", "copy", "a connection does not carry data after%s", why.c_str()); mc::outcome("carried"); } else mc::outcome("other"); } else mc::outcome("other"); }
    trk::on = false; MC_CHECK(trk::live() == 0, "leak", "channels: after%s, never released: %s", why.c_str(), trk::describe_live().c_str());
}
int main(int argc, char **argv)
{
    mc::init("R02", "model_checking", "all create/copy/use/overwrite/destroy histories over descendants of one object of every type, each object compared with one that has the same history and no relatives; every block accounted for", argc, argv); rng_install(); rng_seed(mc::seed());
    mc::on_exec([] { trk::on = false; rng_seed(mc::seed() + 7); }); mc::assume("memory inside OpenSSL is accounted for by number of blocks"); mc::assume("the passphrase KDF is the stand-in described in DESIGN.md");
    std::set<std::string> names; for (auto &t : types()) names.insert(t.name); mc::PartOpts o; o.require = names; E = toy_engine();
    full = false; depth = mc::tier(3, 4); mc::part("histories", histories, o);
    full = true; depth = mc::tier(1, 2); mc::part("every-variant", histories, o);
    mc::PartOpts r; r.require = { "references" }; mc::part("references", references, r);
    mc::PartOpts c; c.require = { "carried" }; mc::part("channels", channels, c);
    for (auto f : { ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }) for (auto &x : f()) OPS.push_back(x); mc::PartOpts p; p.require = { "released" }; mc::part("operations-toy", operations, p);
    E = real_engine(); for (auto f : { ops::primitives, ops::files }) for (auto &x : f()) OPS.push_back(x); mc::part("operations", operations, p);
    if (mc::thorough()) { full = false; depth = 2; mc::part("histories-real-engine", histories, o); }
    return mc::finish();
}
