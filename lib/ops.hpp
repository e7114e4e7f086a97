// ops.hpp - the operations of the library, each as a scene that can be run under faults, watched or interleaved.
//   run    makes the library calls (the only part that runs under faults), keeping what they return
//   check  0: the operation reported failure and handed out nothing; 1: it succeeded and the result is right; fails otherwise
//   clear  releases what run returned
// again: run may be repeated after a success.  Built, checked and cleared without faults.
#pragma once
#include <unistd.h>
#include "obj.hpp"
#include "strm.hpp"
//        retry: run may be repeated after a failure (also when it takes its arguments on success)
struct Inst { std::function<void()> run; std::function<int()> check; std::function<void()> clear; bool again = true; bool retry = false; };
struct OpDef { std::string name; std::function<Inst(const wickr_crypto_engine_t &)> make; int expect = 1; bool heavy = false; };    // expect: what check says without faults
template <class T> using Sp = std::shared_ptr<T>;
template <class T, class... A> Sp<T> sp(A &&... a) { return std::make_shared<T>(std::forward<A>(a)...); }
#define OPX(cond, what) MC_CHECK(cond, "wrong-result", "an operation reported success with a wrong result: %s", what)
template <class O, class F, class V> Inst ret(F f, V verify, bool again = true) { auto o = sp<O>(); return Inst{ [=] { o->reset(f()); }, [=]() -> int { if (!*o) return 0; verify(o->get()); return 1; }, [=] { o->reset(); }, again, true }; }
template <class F> Inst yes(F f, bool again = true) { auto r = sp<int>(0); return Inst{ [=] { *r = f() ? 1 : 0; }, [=]() -> int { return *r; }, [=] { *r = 0; }, again }; }
template <class T> std::string dmp(const T *x) { return dump(x); }
namespace ops {
inline MB idb(const char *s) { return mk(s); }
struct Acc { OGen g; ODev d; OBuf id; };
inline Sp<Acc> account(const wickr_crypto_engine_t &e) { auto a = sp<Acc>(); OBuf s(mk("a system")); a->d.reset(wickr_dev_info_create_new(&e, s.get())); a->id.reset(mk("someone")); a->g.reset(wickr_ctx_gen_new(e, a->d.get(), a->id.get())); if (!a->g) { fprintf(stderr, "ops: account\n"); abort(); } return a; }
inline bool usable(const wickr_crypto_engine_t &e, const wickr_ctx_t *c)
{
    OChain ch(wickr_identity_chain_copy(c->id_chain)); ch->status = IDENTITY_CHAIN_STATUS_UNKNOWN; if (!wickr_identity_chain_validate(ch.get(), &e)) return false; Exact t("some text"); OCipher l(wickr_ctx_cipher_local(c, t)), r(wickr_ctx_cipher_remote(c, t)); if (!l || !r) return false; OBuf a(wickr_ctx_decipher_local(c, l.get())), b(wickr_ctx_decipher_remote(c, r.get())); return is(a.get(), "some text") && is(b.get(), "some text") && c->dev_info && c->packet_header_key && c->storage_keys->local->key_data->length == 32 && !same(c->storage_keys->local->key_data, c->storage_keys->remote->key_data);
}
struct Msg { World w; std::unique_ptr<Recips> rs; OPayload pl; Bytes bytes, other; Msg(const wickr_crypto_engine_t &e, int version) : w(e) { w.account("s", 1, 0); w.account("r", 2, 1); w.d[0].ctx->pkt_enc_version = (uint8_t)version; std::vector<const wickr_node_t *> ns; for (int i = 1; i < 3; i++) { if (!wickr_node_verify_signature_chain(w.d[i].nodes[0].get(), &e)) { fprintf(stderr, "ops: node\n"); abort(); } ns.push_back(w.d[i].nodes[0].get()); } rs.reset(new Recips(ns)); pl.reset(mk_payload("the body", "tag")); OEnc en(wickr_ctx_encode_packet(w.d[0].ctx.get(), pl.get(), rs->arr.get())); bytes = packet_bytes(en.get()); if (bytes.empty()) { fprintf(stderr, "ops: message\n"); abort(); } } };
inline void add(std::vector<OpDef> &v, const std::string &n, std::function<Inst(const wickr_crypto_engine_t &)> m, int expect = 1, bool heavy = false) { v.push_back(OpDef{ n, m, expect, heavy }); }
typedef const wickr_crypto_engine_t &ER;

std::vector<OpDef> primitives(), files(), objects(), accounts(), messages(), streams(), channels();    // lib/ops/*.cpp
std::vector<OpDef> generic(const Type &t, const std::vector<int> &path, bool full);
}
