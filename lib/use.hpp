// use.hpp - what can be done with an object of each type: every use returns what it showed, as text
#pragma once
#include "obj.hpp"
struct Use { const char *name; std::function<Bytes(const wickr_crypto_engine_t &, void *)> f; };
namespace uses_ {
typedef const wickr_crypto_engine_t &ER;
inline Bytes show(MB b) { return b ? take(b) : Bytes("(none)"); } inline Bytes yn(bool b) { return b ? "yes" : "no"; }
template <class O> Bytes showo(O o) { return o ? dump(o.get()) : Bytes("(none)"); }
inline Bytes sunk() { Endpoint &s = sink(); Bytes r; for (auto &x : s.log) r += Bytes(1, x.first) + hex(x.second, 4000) + "|"; r += "#"; for (auto &x : s.out_status) r += std::to_string(x); for (auto &x : s.got_status) r += std::to_string(x); return r; }
}
inline std::vector<Use> uses(const Type &t)
{
    using namespace uses_; std::vector<Use> v; std::string n = t.name;
    if (t.ser) v.push_back({ "serialise", [&t](ER e, void *p) { return show(t.ser(e, p)); } });
#define U(NAME, T, EXPR) v.push_back({ NAME, [](ER e, void *p) -> Bytes { T *x = (T *)p; (void)x; return EXPR; } });
#define UX(NAME, T, ...) v.push_back({ NAME, [](ER e, void *p) -> Bytes { T *x = (T *)p; (void)x; __VA_ARGS__ } });
    if (n == "buffer") UX("modify", wickr_buffer_t, uint8_t d[1] = { 0x77 }; return yn(wickr_buffer_modify_section(x, d, 0, 1)); )
    if (n == "cipher_key") UX("encrypt", wickr_cipher_key_t, Exact d("text"); OCipher r(e.wickr_crypto_engine_cipher_encrypt(d, nullptr, x, nullptr)); if (!r) return "(none)"; OBuf b(e.wickr_crypto_engine_cipher_decrypt(r.get(), nullptr, x, false)); return dump(r.get()) + str(b.get()); )
    if (n == "ec_key") UX("sign", wickr_ec_key_t, Exact d("text"); OSig s(e.wickr_crypto_engine_ec_sign(x, d, DIGEST_SHA_512)); return showo(OSig(s.release())); )
    if (n == "ephemeral_keypair") U("make-public", wickr_ephemeral_keypair_t, (wickr_ephemeral_keypair_make_public(x), "done"))
    if (n == "identity") UX("sign", wickr_identity_t, Exact d("text"); return showo(OSig(wickr_identity_sign(x, &e, d))); )
    if (n == "identity") UX("fingerprint", wickr_identity_t, return showo(OFp(wickr_identity_get_fingerprint(x, e))); )
    if (n.rfind("identity_chain", 0) == 0) U("validate", wickr_identity_chain_t, yn(wickr_identity_chain_validate(x, &e)))
    if (n == "node") { U("verify", wickr_node_t, yn(wickr_node_verify_signature_chain(x, &e))) for (int c = 0; c < 2; c++) v.push_back({ c ? "rotate-copy" : "rotate", [c](ER e, void *p) -> Bytes { wickr_node_t *x = (wickr_node_t *)p; OEph k(wickr_ephemeral_keypair_generate_identity(&e, 77, x->id_chain->node)); bool ok = wickr_node_rotate_keypair(x, k.get(), c); if (ok && !c) k.release(); return yn(ok); } }); }
    if (n == "key_exchange_set") UX("find", wickr_key_exchange_set_t, Exact i(pat(32, 30)); Own<wickr_key_exchange_t, wickr_key_exchange_destroy> k(wickr_key_exchange_set_find(x, i)); return k ? dump(k.get()) : Bytes("none"); )
    if (n == "root_keys") UX("localize", wickr_root_keys_t, ODev dv(wickr_dev_info_create(mk(pat(32, 61)), mk(pat(32, 64)), mk(pat(32, 62)), mk(pat(32, 63)))); return showo(OStor(wickr_root_keys_localize(x, &e, dv.get()))); )
    if (n == "stream_iv") UX("generate", wickr_stream_iv_t, return show(wickr_stream_iv_generate(x)); )
    if (n == "stream_ctx") { for (int s : { 1, 600 }) v.push_back({ s == 1 ? "encode" : "encode-far", [s](ER, void *p) -> Bytes { wickr_stream_ctx_t *x = (wickr_stream_ctx_t *)p; Exact d("text"), a("aad"); return showo(OCipher(wickr_stream_ctx_encode(x, d, a, x->last_seq + s))); } });
        UX("decode", wickr_stream_ctx_t, OSKey k(wickr_stream_key_copy(x->key)); if (!k) return "(none)"; OStream en(wickr_stream_ctx_create(e, k.release(), STREAM_DIRECTION_ENCODE)); Exact d("text"); uint64_t q = x->last_seq + 1; OCipher c(wickr_stream_ctx_encode(en.get(), d, nullptr, q)); if (!c) return "(none)"; return show(wickr_stream_ctx_decode(x, c.get(), nullptr, q)); ) }
    if (n == "fingerprint") { UX("hex", wickr_fingerprint_t, return show(wickr_fingerprint_get_hex(x, FINGERPRINT_OUTPUT_LONG)); ) UX("b32", wickr_fingerprint_t, return show(wickr_fingerprint_get_b32(x, FINGERPRINT_OUTPUT_SHORT)); ) }
    if (n == "transport_root_key") UX("stream-key", wickr_transport_root_key_t, Exact s("salt"), i("stream"); return showo(OSKey(wickr_transport_root_key_to_stream_key(x, &e, s, i, STREAM_DIRECTION_ENCODE))); )
    if (n == "transport_packet") { UX("sign", wickr_transport_packet_t, uint64_t h = mc::Hash().s("signer").h; (void)h; rng_seed(mc::seed() + 99); OChain c(mk_chain(e, "signer", "dev")); return yn(wickr_transport_packet_sign(x, &e, c.get())); ) UX("verify", wickr_transport_packet_t, rng_seed(mc::seed() + 99); OChain c(mk_chain(e, "signer", "dev")); return yn(wickr_transport_packet_verify(x, &e, c.get())); ) }
    if (n == "ecdh_cipher_ctx") UX("cipher", wickr_ecdh_cipher_ctx_t, rng_seed(mc::seed() + 98); OEc o(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); OKdfMeta m(wickr_kdf_meta_create(KDF_HKDF_SHA512, mk(pat(16)), mk("info"))); Exact d("text"); return showo(OCipher(wickr_ecdh_cipher_ctx_cipher(x, d, o.get(), m.get()))); )
    if (n == "ctx") { UX("cipher-local", wickr_ctx_t, Exact d("text"); return showo(OCipher(wickr_ctx_cipher_local(x, d))); ) UX("keypair", wickr_ctx_t, return showo(OEph(wickr_ctx_ephemeral_keypair_gen(x, 5))); ) UX("encode", wickr_ctx_t, OPayload pl(mk_payload("b", "t")); OEph k(wickr_ctx_ephemeral_keypair_gen(x, 6)); ONode nd(wickr_node_create(mk(pat(32)), wickr_identity_chain_copy(x->id_chain), k.release())); wickr_node_verify_signature_chain(nd.get(), &e); Recips r({ nd.get() }); return showo(OEnc(wickr_ctx_encode_packet(x, pl.get(), r.arr.get()))); ) }
    if (n == "ctx_gen_result") { UX("recovery", wickr_ctx_gen_result_t, return show(wickr_ctx_gen_result_make_recovery(x)); ) UX("passphrase", wickr_ctx_gen_result_t, Exact q("pass"); return show(wickr_ctx_gen_export_recovery_key_passphrase(x, q)); ) }
    if (n == "exchange_array") { UX("set-item", wickr_exchange_array_t, Maker m{ e, false }; m.use_fixed = true; wickr_key_exchange_t *k = m.kex(7); if (!wickr_array_get_item_count(x)) { wickr_key_exchange_destroy(&k); return "empty"; } wickr_key_exchange_t *old = (wickr_key_exchange_t *)wickr_array_fetch_item(x, 0, false); bool ok = wickr_exchange_array_set_item(x, 0, k); if (ok && old) wickr_key_exchange_destroy(&old); return yn(ok); ) }
    if (n == "transport_ctx")
    {
        v.push_back({ "start", [](ER, void *p) -> Bytes { sink_reset(); wickr_transport_ctx_start((wickr_transport_ctx_t *)p); return sunk(); } });
        v.push_back({ "send", [](ER, void *p) -> Bytes { sink_reset(); Exact d("text"); wickr_transport_ctx_process_tx_buffer((wickr_transport_ctx_t *)p, d); return sunk(); } });
        for (int i = 0; i < 2; i++) v.push_back({ i ? "receive-second" : "receive", [i](ER, void *p) -> Bytes { sink_reset(); if (feed().empty()) return "none"; Exact d(feed()[i % feed().size()]); wickr_transport_ctx_process_rx_buffer((wickr_transport_ctx_t *)p, d); Bytes r = sunk(); if (sink().pending) { sink().done((wickr_transport_ctx_t *)p, true); r += sunk(); } return r; } });
    }
    if (n == "transport_handshake")
    {
        v.push_back({ "start", [](ER, void *p) -> Bytes { return showo(OTPkt(wickr_transport_handshake_start((wickr_transport_handshake_t *)p))); } });
        v.push_back({ "process", [](ER, void *p) -> Bytes { if (feed().empty()) return "none"; Exact d(feed()[0]); OTPkt q(wickr_transport_packet_create_from_buffer(d)); return showo(OTPkt(wickr_transport_handshake_process((wickr_transport_handshake_t *)p, q.get()))); } });
        v.push_back({ "approve", [](ER, void *p) -> Bytes { return showo(OTPkt(wickr_transport_handshake_verify_identity((wickr_transport_handshake_t *)p, true))); } });
        v.push_back({ "finalise", [](ER, void *p) -> Bytes { return showo(Own<wickr_transport_handshake_res_t, wickr_transport_handshake_res_destroy>(wickr_transport_handshake_finalize((wickr_transport_handshake_t *)p))); } });
    }
#undef U
#undef UX
    return v;
}
