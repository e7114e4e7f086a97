// S03: no key and nonce pair is ever used twice by a stream or a channel
#include "strm.hpp"
#include "chan.hpp"
static std::map<std::pair<Bytes, Bytes>, int> used; static int count_enc = 0;
static std::string dup_; static size_t badlen = 0;
static void watch() { used.clear(); dup_.clear(); badlen = 0; count_enc = 0; spy.encrypted = [](const wickr_cipher_key_t *k, const wickr_cipher_result_t *r, const wickr_buffer_t *) { count_enc++; if (r->iv->length != k->cipher.iv_len) badlen = r->iv->length + 1; auto p = std::make_pair(str(k->key_data), str(r->iv)); auto it = used.find(p); if (it != used.end()) dup_ = "encryption " + std::to_string(count_enc) + " repeats key and nonce of encryption " + std::to_string(it->second); else used[p] = count_enc; }; }
static void verdict(const std::string &hist) { MC_CHECK(dup_.empty(), "reused", "%s: %s", dup_.c_str(), hist.c_str()); MC_CHECK(!badlen, "nonce-length", "a nonce of %zu bytes", badlen - 1); }

int main(int argc, char **argv)
{
    mc::init("S03", "model_checking", "every history up to the depth of sending (with gaps, refused numbers and failing primitives) on two streams and on two channels in both directions, over two successive sessions of the same parties; every encryption call is recorded", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("a copy of a sending stream is not used to send alongside its original: a deep copy by construction continues from the same state");
    mc::assume("the random source returns distinct values (the deterministic generator used here does)");
    auto streams = [&](const wickr_crypto_engine_t &base, int depth) {
        wickr_crypto_engine_t e = spy_engine(base); static bool failing; static int fk; failing = false; spy.before = [](int k) { return !(failing && k == fk); }; watch();
        uint32_t ppe = mc::pick(std::vector<uint32_t>{ 1, 2, 3 }, "ppe"); std::vector<Pair> p; p.push_back(mk_pair(e, ppe)); p.push_back(mk_pair(e, ppe)); std::string hist; bool shared = mc::flip("same key");
        if (shared) p[1].enc.reset(wickr_stream_ctx_create(e, wickr_stream_key_copy(p[0].enc->key), STREAM_DIRECTION_ENCODE));   // two streams started from one key (as when a session is set up again)
        for (int i = 0; i < depth; i++) { int op = mc::choose(7, "op"), w = op & 1; mc::step(); OStream &s = p[w].enc; uint64_t n = s->last_seq;
            switch (op) { case 0: case 1: enc(s, "m", "", n + 1); hist += "send on "; break; case 2: case 3: enc(s, "m", "", n + ppe + 1); hist += "send after a gap on "; break; case 4: enc(s, "m", "", n); hist += "repeat a number on "; break; case 5: failing = true; fk = mc::flip("what") ? EC_ENC : EC_HMAC; enc(s, "m", "", n + 1); failing = false; hist += "failing send on "; break; case 6: { OStream c(wickr_stream_ctx_copy(s.get())); s = std::move(c); hist += "continue on a copy of "; break; } }
            hist += std::to_string(w) + "; "; mc::outcome(op < 4 ? "sent" : "other"); mc::state(mc::Hash().u(ppe).u(shared).u(p[0].enc->last_seq).u(p[1].enc->last_seq).u(count_enc).h); verdict(hist); } };
    mc::part("streams", [&] { streams(toy_engine(), mc::tier(5, 7)); });
    mc::part("streams-real", [&] { streams(real_engine(), mc::tier(3, 4)); });
    mc::part("stream-long", [&] { wickr_crypto_engine_t e = spy_engine(mc::flip("engine") ? real_engine() : toy_engine()); watch(); uint32_t ppe = mc::pick(std::vector<uint32_t>{ 1, 512, 32768 }, "ppe"); Pair p = mk_pair(e, ppe); int n = mc::tier(5000, 60000); for (int i = 1; i <= n; i++) { enc(p.enc, "m", "", i); } mc::step(n); verdict("long run"); MC_CHECK(count_enc == n, "encode", "only %d of %d packets encrypted", count_enc, n); });
    // the nonce generator itself
    mc::part("generator", [&] { wickr_crypto_engine_t e = mc::flip("engine") ? real_engine() : toy_engine(); wickr_cipher_t c = mc::flip("cipher") ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; int n = mc::tier(133000, 300000); wickr_stream_iv_t *a = wickr_stream_iv_create(e, c), *b = wickr_stream_iv_create(e, c); std::set<Bytes> s; for (int i = 0; i < n; i++) { wickr_stream_iv_t *w = i & 1 ? b : a; Bytes v = take(wickr_stream_iv_generate(w)); MC_CHECK(v.size() == c.iv_len, "nonce-length", "%zu bytes", v.size()); MC_CHECK(s.insert(v).second, "reused", "nonce %d repeats", i); if (i == 1000) { wickr_stream_iv_t *x = wickr_stream_iv_copy(a); wickr_stream_iv_destroy(&a); a = x; } } mc::step(n); wickr_stream_iv_destroy(&a); wickr_stream_iv_destroy(&b); });
    // around every power of two the counter can reach
    mc::part("generator-counter", [&] { wickr_crypto_engine_t e = mc::flip("engine") ? real_engine() : toy_engine(); wickr_cipher_t c = mc::flip("cipher") ? CIPHER_AES256_GCM : CIPHER_AES256_CTR; bool copied = mc::flip("copied"); wickr_stream_iv_t *a = wickr_stream_iv_create(e, c); std::map<Bytes, uint64_t> s; auto gen = [&](uint64_t from, int n) { a->gen_count = from; if (copied) { wickr_stream_iv_t *x = wickr_stream_iv_copy(a); wickr_stream_iv_destroy(&a); a = x; } for (int i = 0; i < n; i++) { Bytes v = take(wickr_stream_iv_generate(a)); mc::step(); MC_CHECK(v.size() == c.iv_len, "nonce-length", "%zu bytes", v.size()); auto r = s.emplace(v, from + i); MC_CHECK(r.second, "reused", "nonce %llu is nonce %llu again", (unsigned long long)from + i, (unsigned long long)r.first->second); } };
        gen(0, 48); for (int k = 6; k < 64; k++) gen(((uint64_t)1 << k) - 16, 32); gen(~0ull - 32, 32); wickr_stream_iv_destroy(&a); mc::outcome("distinct"); mc::state(mc::Hash().s("counter").u(c.cipher_id).u(copied).h); });
    mc::part("generator-long", [&] {  // far into the sequence of one seed, with a cheap keyed function in place of the code; two generators interleaved
        wickr_crypto_engine_t e = toy_engine(); e.wickr_crypto_engine_hmac_create = [](CB d, CB k, wickr_digest_t g) -> MB { uint64_t h = 0x9e3779b97f4a7c15ull; auto eat = [&](CB b) { h ^= b->length; for (size_t i = 0; i < b->length; i += 8) { uint64_t v = 0; memcpy(&v, b->bytes + i, std::min<size_t>(8, b->length - i)); h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; } }; eat(k); eat(d); MB o = wickr_buffer_create_empty(g.size); for (size_t i = 0; i < g.size; i += 8) { uint64_t x = (h += 0x9e3779b97f4a7c15ull); x = (x ^ x >> 30) * 0xbf58476d1ce4e5b9ull; x = (x ^ x >> 27) * 0x94d049bb133111ebull; x ^= x >> 31; memcpy(o->bytes + i, &x, 8); } return o; };
        typedef unsigned __int128 U; static std::vector<U> v; v.clear(); size_t n = mc::tier(2300000, 34000000); v.reserve(n); wickr_stream_iv_t *a = wickr_stream_iv_create(e, CIPHER_AES256_GCM), *b = wickr_stream_iv_create(e, CIPHER_AES256_GCM); MC_CHECK(a && b, "setup", "no generator");
        for (size_t i = 0; i < n; i++) { wickr_buffer_t *r = wickr_stream_iv_generate(i & 7 ? a : b); MC_CHECK(r && r->length == 12, "nonce-length", "nonce %zu", i); U x = 0; memcpy(&x, r->bytes, 12); v.push_back(x); wickr_buffer_destroy(&r); } mc::step(n); wickr_stream_iv_destroy(&a); wickr_stream_iv_destroy(&b);
        std::sort(v.begin(), v.end()); MC_CHECK(std::adjacent_find(v.begin(), v.end()) == v.end(), "reused", "a nonce repeats within %zu", n); v.clear(); v.shrink_to_fit(); mc::outcome("ok"); mc::state(n); });
    // channels: both directions, two sessions
    auto channels = [&](const wickr_crypto_engine_t &base, int depth) {
        wickr_crypto_engine_t e = spy_engine(base); watch(); OChain ia(mk_chain(e, "alice", Bytes(32, 'a'))), ib(mk_chain(e, "bob", Bytes(32, 'b'))); uint32_t ppe = mc::choose(2, "ppe") + 1; std::vector<std::unique_ptr<Chan>> ch; std::string hist;
        for (int s = 0; s < 2; s++) { ch.emplace_back(new Chan(e, ia.get(), ib.get(), ppe, mc::choose(2, "pinned"))); if (mc::choose(2, "swap")) ch.back()->swap(); MC_CHECK(ch.back()->connect(), "setup", "the channel could not be set up"); }
        for (int i = 0; i < depth; i++) { int op = mc::choose(5, "op"); mc::step(); if (op == 4) { Chan &c = *ch[0]; OTrans k(wickr_transport_ctx_copy(c.a.t.get())); if (k) { c.a.t = std::move(k); wickr_transport_ctx_set_user_ctx(c.a.t.get(), &c.a); } hist += "continue on a copy; "; } else { Chan &c = *ch[op & 1]; Endpoint &s = op & 2 ? c.b : c.a; s.send("m"); c.pump(); hist += std::string(op & 2 ? "b" : "a") + std::to_string(op & 1) + " sends; "; } mc::state(mc::Hash().u(ppe).u(count_enc).s(hist).h); verdict(hist); }
        for (auto &c : ch) { c->a.send("x"); c->b.send("y"); c->pump(); } verdict(hist); };
    mc::part("channels", [&] { channels(toy_engine(), mc::tier(4, 6)); });
    mc::part("channels-real", [&] { channels(real_engine(), mc::tier(1, 2)); });
    return mc::finish();
}
