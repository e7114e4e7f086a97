// obj.hpp - every object type of the library: how to make all its variants, dump its content, copy, serialise, parse and
// destroy it.  make() draws its variant from mc::choose, so that enumerating executions enumerates variants.
#pragma once
#include "w.hpp"
#include "msg.hpp"
#include "chan.hpp"

struct Dump {
    std::string text; bool pub;                      // pub: only what the public serialisation carries
    std::vector<wickr_buffer_t> bufs;                // every buffer reached
    std::vector<Bytes> secrets;                      // private keys, symmetric keys, chain keys, plaintexts
    std::vector<wickr_buffer_t> where; bool keys_only = false; explicit Dump(bool p = false) : pub(p) {}
    Dump &s(const char *x) { text += x; return *this; } Dump &n(const char *k, uint64_t v) { text += std::string(k) + "=" + std::to_string(v) + " "; return *this; }
    Dump &b(const char *k, CB v, int secret = 0) { text += std::string(k) + "=" + (v ? std::to_string(v->length) + ":" + hex(str(v), v->length < 100 ? 200 : 20) + "#" + std::to_string(mc::Hash().s(str(v)).h) : "none") + " "; if (v && v->bytes) { bufs.push_back(*v); if (secret == 1 || (secret && !keys_only)) { secrets.push_back(str(v)); where.push_back(*v); } } return *this; }
};
inline void d(Dump &o, const wickr_buffer_t *x) { o.b("buf", x); }
inline void d(Dump &o, const wickr_cipher_t &c) { o.n("cipher", c.cipher_id).n("kl", c.key_len).n("il", c.iv_len).n("tl", c.auth_tag_len).n("au", c.is_authenticated); }
inline void d(Dump &o, const wickr_cipher_result_t *x) { if (!x) { o.s("-"); return; } o.s("cr{"); d(o, x->cipher); o.b("iv", x->iv).b("ct", x->cipher_text).b("tag", x->auth_tag).s("}"); }
inline void d(Dump &o, const wickr_cipher_key_t *x) { if (!x) { o.s("-"); return; } o.s("key{"); d(o, x->cipher); o.b("data", x->key_data, true).s("}"); }
inline void d(Dump &o, const wickr_ecdsa_result_t *x) { if (!x) { o.s("-"); return; } o.s("sig{").n("curve", x->curve.identifier).n("dig", x->digest_mode.digest_id).n("dsz", x->digest_mode.size).b("data", x->sig_data).s("}"); }
inline void d(Dump &o, const wickr_ec_key_t *x) { if (!x) { o.s("-"); return; } o.s("ec{").n("curve", x->curve.identifier).b("pub", x->pub_data); if (!o.pub) o.b("pri", x->pri_data, true); o.s("}"); }
inline void d(Dump &o, const wickr_ephemeral_keypair_t *x) { if (!x) { o.s("-"); return; } o.s("eph{").n("id", x->identifier); d(o, x->ec_key); d(o, x->signature); o.s("}"); }
inline void d(Dump &o, const wickr_identity_t *x) { if (!x) { o.s("-"); return; } o.s("id{").n("type", x->type).b("ident", x->identifier); d(o, x->sig_key); d(o, x->signature); o.s("}"); }
inline void d(Dump &o, const wickr_identity_chain_t *x) { if (!x) { o.s("-"); return; } o.s("chain{"); d(o, x->root); d(o, x->node); if (!o.pub) o.n("st", x->status); o.s("}"); }
inline void d(Dump &o, const wickr_node_t *x) { if (!x) { o.s("-"); return; } o.s("node{").b("dev", x->dev_id); d(o, x->id_chain); d(o, x->ephemeral_keypair); if (!o.pub) o.n("st", x->status); o.s("}"); }
inline void d(Dump &o, const wickr_key_exchange_t *x) { if (!x) { o.s("-"); return; } o.s("kex{").b("id", x->exchange_id).n("kid", x->key_id); d(o, x->exchange_ciphertext); o.s("}"); }
inline void d_exchanges(Dump &o, const wickr_exchange_array_t *a) { if (!a) { o.s("-"); return; } uint32_t n = wickr_array_get_item_count(a); o.n("n", n); for (uint32_t i = 0; i < n; i++) d(o, (const wickr_key_exchange_t *)wickr_array_fetch_item(a, i, false)); }
inline void d(Dump &o, const wickr_key_exchange_set_t *x) { if (!x) { o.s("-"); return; } o.s("kset{"); d(o, x->sender_pub); d_exchanges(o, x->exchanges); o.s("}"); }
inline void d(Dump &o, const wickr_packet_meta_t *x) { if (!x) { o.s("-"); return; } o.s("meta{").n("ttl", x->ephemerality_settings.ttl).n("bor", x->ephemerality_settings.bor).n("ct", x->content_type).b("tag", x->channel_tag).s("}"); }
inline void d(Dump &o, const wickr_payload_t *x) { if (!x) { o.s("-"); return; } o.s("pl{"); d(o, x->meta); o.b("body", x->body, 2).s("}"); }
inline void d(Dump &o, const wickr_packet_t *x) { if (!x) { o.s("-"); return; } o.s("pkt{").n("v", x->version).b("c", x->content); d(o, x->signature); o.s("}"); }
inline void d(Dump &o, const wickr_parse_result_t *x) { if (!x) { o.s("-"); return; } o.s("parse{").n("e", x->err).n("ss", x->signature_status); d(o, x->key_exchange_set); d(o, x->key_exchange); d(o, x->enc_payload); o.s("}"); }
inline void d(Dump &o, const wickr_decode_result_t *x) { if (!x) { o.s("-"); return; } o.s("dec{").n("e", x->err); d(o, x->payload_key); d(o, x->decrypted_payload); o.s("}"); }
inline void d(Dump &o, const wickr_encoder_result_t *x) { if (!x) { o.s("-"); return; } o.s("enc{"); d(o, x->packet_key); d(o, x->packet); o.s("}"); }
inline void d(Dump &o, const wickr_dev_info_t *x) { if (!x) { o.s("-"); return; } o.s("dev{").b("ds", x->dev_salt).b("ss", x->system_salt).b("mid", x->msg_proto_id).b("sid", x->srv_comm_id).s("}"); }
inline void d(Dump &o, const wickr_root_keys_t *x) { if (!x) { o.s("-"); return; } o.s("root{"); d(o, x->node_signature_root); d(o, x->node_storage_root); d(o, x->remote_storage_root); o.s("}"); }
inline void d(Dump &o, const wickr_storage_keys_t *x) { if (!x) { o.s("-"); return; } o.s("stor{"); d(o, x->local); d(o, x->remote); o.s("}"); }
inline void d(Dump &o, const wickr_stream_key_t *x) { if (!x) { o.s("-"); return; } o.s("sk{"); d(o, x->cipher_key); o.b("evo", x->evolution_key, true).b("ud", x->user_data).n("ppe", x->packets_per_evolution).s("}"); }
inline void d(Dump &o, const wickr_stream_iv_t *x) { if (!x) { o.s("-"); return; } o.s("iv{"); d(o, x->cipher); o.b("seed", x->seed).n("c", x->gen_count).s("}"); }
inline void d(Dump &o, const wickr_stream_ctx_t *x) { if (!x) { o.s("-"); return; } o.s("sctx{"); d(o, x->key); d(o, x->iv_factory); o.n("seq", x->last_seq).n("dir", x->direction).s("}"); }
inline void d(Dump &o, const wickr_kdf_algo_t &a) { o.n("a", a.algo_id).n("k", a.kdf_id).n("ss", a.salt_size).n("os", a.output_size).n("cost", a.cost); }
inline void d(Dump &o, const wickr_kdf_meta_t *x) { if (!x) { o.s("-"); return; } o.s("km{"); d(o, x->algo); o.b("salt", x->salt).b("info", x->info).s("}"); }
inline void d(Dump &o, const wickr_kdf_result_t *x) { if (!x) { o.s("-"); return; } o.s("kr{"); d(o, x->meta); o.b("hash", x->hash, true).s("}"); }
inline void d(Dump &o, const wickr_fingerprint_t *x) { if (!x) { o.s("-"); return; } o.s("fp{").n("t", x->type).b("d", x->data).s("}"); }
inline void d(Dump &o, const wickr_transport_root_key_t *x) { if (!x) { o.s("-"); return; } o.s("trk{").b("s", x->secret, true); d(o, x->cipher); o.n("ps", x->packets_per_evo_send).n("pr", x->packets_per_evo_recv).s("}"); }
inline void d(Dump &o, const wickr_transport_packet_t *x)
{
    if (!x) { o.s("-"); return; } o.s("tp{").n("bt", x->meta.body_type).n("mt", x->meta.mac_type);
    if (x->meta.body_type == TRANSPORT_PAYLOAD_TYPE_HANDSHAKE) o.n("pv", x->meta.body_meta.handshake.protocol_version).n("fl", x->meta.body_meta.handshake.flags); else o.n("seq", x->meta.body_meta.data.sequence_number);
    o.b("body", x->body).b("mac", x->mac).s("}");
}
inline void d(Dump &o, const wickr_ctx_t *x) { if (!x) { o.s("-"); return; } o.s("ctx{"); d(o, x->dev_info); d(o, x->id_chain); d(o, x->storage_keys); d(o, x->packet_header_key); o.n("v", x->pkt_enc_version).s("}"); }
inline void d(Dump &o, const wickr_ctx_gen_result_t *x) { if (!x) { o.s("-"); return; } o.s("gen{"); d(o, x->ctx); d(o, x->recovery_key); d(o, x->root_keys); o.s("}"); }
inline void d(Dump &o, const wickr_ctx_packet_t *x) { if (!x) { o.s("-"); return; } o.s("cp{"); d(o, x->packet); d(o, x->sender); d(o, x->parse_result); o.s("}"); }
inline void d(Dump &o, const wickr_ecdh_cipher_ctx_t *x) { if (!x) { o.s("-"); return; } o.s("ecdh{"); d(o, x->local_key); d(o, x->cipher); o.s("}"); }
inline void d(Dump &o, const wickr_transport_handshake_res_t *x) { if (!x) { o.s("-"); return; } o.s("hsr{"); d(o, wickr_transport_handshake_res_get_local_key(x)); d(o, wickr_transport_handshake_res_get_remote_key(x)); o.s("}"); }
inline void d(Dump &o, const wickr_array_t *x) { d_exchanges(o, x); }
// opaque: what the public interface shows
inline void d(Dump &o, const wickr_transport_handshake_t *x) { if (!x) { o.s("-"); return; } o.s("hs{").n("st", wickr_transport_handshake_get_status(x)); d(o, wickr_transport_handshake_get_local_identity(x)); d(o, wickr_transport_handshake_get_remote_identity(x)); o.s("}"); }
inline void d(Dump &o, const wickr_transport_ctx_t *x) { if (!x) { o.s("-"); return; } o.s("tc{").n("st", wickr_transport_ctx_get_status(x)).n("err", wickr_transport_ctx_get_last_error(x)); d(o, wickr_transport_ctx_get_local_identity_ptr(x)); d(o, wickr_transport_ctx_get_remote_identity_ptr(x)); o.s("}"); }
template <class T> std::string dump(const T *x, bool pub = false) { Dump o(pub); d(o, x); return o.text; }

// ---- making all variants -------------------------------------------------------------------------
struct Maker {
    wickr_crypto_engine_t e; bool full;              // full: all variants; otherwise the richest one of each kind plus the main alternatives
    std::vector<std::pair<int, int>> *path = nullptr; size_t pos = 0; std::vector<int> fixed; bool use_fixed = false; std::vector<int> took;      // choices from elsewhere than the explorer
    void pick_from(std::vector<std::pair<int, int>> *p) { path = p; pos = 0; }
    int c(int n, int few)
    {
        int k = full ? n : few < n ? few : n; if (use_fixed) { int r = pos < fixed.size() ? fixed[pos] : 0; pos++; return r % k; }
        if (path) { if (pos == path->size()) path->push_back({ 0, k }); return (*path)[pos++].first; } took.push_back(mc::choose(k)); return took.back();
    }
    MB buf(const std::vector<int> &lens, int few, int salt) { int l = lens[c((int)lens.size(), few)]; return l < 0 ? nullptr : mk(pat(l, salt)); }
    wickr_cipher_t cipher() { return c(2, 2) ? CIPHER_AES256_CTR : CIPHER_AES256_GCM; }
    wickr_cipher_key_t *key() { return e.wickr_crypto_engine_cipher_key_random(cipher()); }
    wickr_cipher_key_t *gkey() { return e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM); }
    wickr_cipher_result_t *cres(const std::vector<int> &lens = { 17, 1, 4096, -1 }, int few = 2) { wickr_cipher_t ci = cipher(); MB t = buf(lens, few, 1); return wickr_cipher_result_create(ci, mk(pat(ci.iv_len, 2)), t, ci.is_authenticated ? mk(pat(ci.auth_tag_len, 3)) : nullptr); }
    wickr_digest_t dig() { int i = c(3, 1); return i == 0 ? DIGEST_SHA_512 : i == 1 ? DIGEST_SHA_256 : DIGEST_SHA_384; }
    wickr_ecdsa_result_t *sig() { wickr_digest_t g = dig(); return wickr_ecdsa_result_create(EC_CURVE_NIST_P521, g, buf({ 139, 1, EC_CURVE_NIST_P521.signature_size - 2, 70 }, 1, 5)); }
    wickr_ec_key_t *ec(bool pri) { OEc k(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); if (pri) return k.release(); return e.wickr_crypto_engine_ec_key_import(k->pub_data, false); }
    wickr_ec_key_t *ec() { return ec(c(2, 2) == 0); }
    uint64_t u64() { static const uint64_t v[] = { 1ull << 32 | 7, 0, 1, UINT64_MAX, 127, 128 }; return v[c(6, 1)]; }
    wickr_ephemeral_keypair_t *eph() { wickr_ec_key_t *k = ec(); wickr_ecdsa_result_t *s = c(2, 2) ? nullptr : sig(); return wickr_ephemeral_keypair_create(u64(), k, s); }
    wickr_identity_t *ident(int type = -1, int pri = -1)
    {
        if (type < 0) type = c(2, 2); if (pri < 0) pri = 1 - c(2, 2); MB i = buf({ 32, 1, 100, 127 }, 1, 9);
        return wickr_identity_create(type ? IDENTITY_TYPE_ROOT : IDENTITY_TYPE_NODE, i, ec(pri), type ? nullptr : sig());
    }
    wickr_identity_chain_t *chain(int pri = -1, bool valid = true)
    {
        if (pri < 0) pri = 1 - c(2, 2); MB i = buf({ 32, 1, 127 }, 1, 11); wickr_identity_t *r = wickr_identity_create(IDENTITY_TYPE_ROOT, i, ec(true), nullptr);
        MB ni = buf({ -1, 32, 1 }, 1, 12); wickr_identity_t *n = wickr_node_identity_gen(&e, r, ni); wickr_buffer_destroy_zero(&ni); wickr_identity_chain_t *x = wickr_identity_chain_create(r, n);
        int st = c(3, 2); if (st == 1) wickr_identity_chain_validate(x, &e); else if (st == 2) { x->node->signature->sig_data->bytes[0] ^= 1; wickr_identity_chain_validate(x, &e); }
        if (!pri) { wickr_buffer_destroy_zero(&x->root->sig_key->pri_data); wickr_buffer_destroy_zero(&x->node->sig_key->pri_data); } return x;
    }
    wickr_node_t *node()
    {
        wickr_identity_chain_t *ch = chain(1); wickr_ephemeral_keypair_t *k = nullptr; int how = c(3, 2); if (how == 0) k = wickr_ephemeral_keypair_generate_identity(&e, u64(), ch->node); else if (how == 1) { k = wickr_ephemeral_keypair_generate_identity(&e, 5, ch->node); wickr_ephemeral_keypair_make_public(k); }
        wickr_node_t *n = wickr_node_create(mk(pat(32, 20)), ch, k); if (how != 2 && c(2, 1)) wickr_node_verify_signature_chain(n, &e); return n;
    }
    wickr_key_exchange_t *kex(int salt = 0) { MB i = mk(pat(32, 30 + salt)); uint64_t k = u64(); return wickr_key_exchange_create(i, k, cres({ 17, 1, 65 }, 1)); }
    wickr_exchange_array_t *exarr(int n) { wickr_exchange_array_t *a = wickr_exchange_array_new(n); for (int i = 0; i < n; i++) { MB id = mk(pat(32, 40 + i)); wickr_key_exchange_t *x = i ? wickr_key_exchange_create(id, i, wickr_cipher_result_create(CIPHER_AES256_CTR, mk(pat(16, i)), mk(pat(33, i + 3)), nullptr)) : (wickr_buffer_destroy_zero(&id), kex()); wickr_exchange_array_set_item(a, i, x); } return a; }
    wickr_key_exchange_set_t *kset() { int n = c(3, 2) + 1; wickr_ec_key_t *k = ec(false); return wickr_key_exchange_set_create(k, exarr(n == 3 ? 7 : n)); }
    wickr_packet_meta_t *meta() { wickr_ephemeral_info_t i; i.ttl = u64(); i.bor = u64(); MB t = buf({ 64, 1, 32 }, 1, 50); static const uint16_t ty[] = { 1000, 0, 1, 127, 128, 255, 256, 0x7fff, 0xffff }; return wickr_packet_meta_create(i, t, ty[c(9, 1)]); }
    wickr_payload_t *payload() { wickr_packet_meta_t *m = meta(); return wickr_payload_create(m, buf({ 33, 1, 5000 }, 1, 51)); }
    wickr_packet_t *packet() { static const uint8_t v[] = { 4, 3, 2 }; uint8_t ver = v[c(3, 1)]; wickr_digest_t g = wickr_digest_matching_curve(EC_CURVE_NIST_P521); MB sd = buf({ 139, 1, EC_CURVE_NIST_P521.signature_size - 2 }, 1, 52); return wickr_packet_create(ver, buf({ 100, 1, 4096 }, 1, 53), wickr_ecdsa_result_create(EC_CURVE_NIST_P521, g, sd)); }
    wickr_parse_result_t *parse() { int h = c(4, 2); if (h == 1) return wickr_parse_result_create_failure(PACKET_SIGNATURE_INVALID, ERROR_MAC_INVALID); if (h == 2) return wickr_parse_result_create_failure(PACKET_SIGNATURE_UNKNOWN, ERROR_INVALID_INPUT); wickr_key_exchange_set_t *s = kset(); wickr_key_exchange_t *k = h == 3 ? nullptr : kex(); return wickr_parse_result_create_success(s, k, cres({ 17 }, 1)); }
    wickr_decode_result_t *decode() { int h = c(6, 2); if (h) return wickr_decode_result_create_failure((wickr_decode_error)h); wickr_payload_t *p = payload(); return wickr_decode_result_create_success(p, key()); }
    wickr_encoder_result_t *enc() { wickr_cipher_key_t *k = key(); return wickr_encoder_result_create(k, packet()); }
    wickr_dev_info_t *dev() { if (c(2, 2) == 0) { OBuf s(mk("a system")); return wickr_dev_info_create_new(&e, s.get()); } MB ss = buf({ 32, 1, -1 }, 2, 60); return wickr_dev_info_create(mk(pat(32, 61)), ss, mk(pat(32, 62)), mk(pat(32, 63))); }
    wickr_root_keys_t *root() { if (c(2, 1) == 0) return wickr_root_keys_generate(&e); wickr_ec_key_t *k = ec(true); wickr_cipher_key_t *a = key(); return wickr_root_keys_create(k, a, key()); }
    wickr_storage_keys_t *stor() { wickr_cipher_key_t *a = key(); return wickr_storage_keys_create(a, key()); }
    wickr_stream_key_t *skey() { static const uint32_t p[] = { 512, 1, 127, 128, 32768 }; uint32_t ppe = p[c(5, 1)]; if (c(2, 2)) return wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, ppe); MB ud = buf({ 10, 1, 300 }, 1, 70); return wickr_stream_key_create_user_data(gkey(), mk(pat(32, 71)), ppe, ud); }
    wickr_stream_iv_t *siv() { wickr_stream_iv_t *i = wickr_stream_iv_create(e, cipher()); for (int k = c(3, 2); k > 0; k--) { OBuf x(wickr_stream_iv_generate(i)); } return i; }
    wickr_stream_ctx_t *sctx() { wickr_stream_ctx_t *s = wickr_stream_ctx_create(e, skey(), c(2, 2) ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE); for (int i = 0, n = s && s->direction == STREAM_DIRECTION_ENCODE ? c(3, 2) : 0; i < n; i++) { Exact p(pat(9, i)); OCipher x(wickr_stream_ctx_encode(s, p, nullptr, s->last_seq + 600)); } return s; }
    wickr_kdf_meta_t *kmeta(bool readable)
    {
        static const wickr_kdf_algo_t a[] = { KDF_SCRYPT_2_17, KDF_BCRYPT_15, KDF_SCRYPT_2_18, KDF_SCRYPT_2_19, KDF_SCRYPT_2_20, KDF_HKDF_SHA512, KDF_HKDF_SHA256, KDF_HKDF_SHA384 };
        const wickr_kdf_algo_t &g = a[c(readable ? 5 : 8, 2)]; return wickr_kdf_meta_create(g, mk(pat(g.salt_size, 80)), readable || c(2, 1) ? nullptr : mk(pat(40, 81)));
    }
    wickr_kdf_result_t *kres() { wickr_kdf_meta_t *m = kmeta(false); size_t n = m->algo.output_size; return wickr_kdf_result_create(m, mk(pat(n, 82))); }
    wickr_fingerprint_t *fp() { wickr_ec_key_t *k = ec(false); OEc o(k); OBuf i(mk("someone")); return wickr_fingerprint_gen(e, k, i.get(), WICKR_FINGERPRINT_TYPE_SHA512); }
    wickr_transport_root_key_t *troot() { static const uint32_t p[] = { 512, 1, 32768 }; uint32_t a = p[c(3, 1)], b = p[c(3, 1)]; return wickr_transport_root_key_create_random(&e, CIPHER_AES256_GCM, a, b); }
    wickr_transport_packet_t *tpkt()
    {
        wickr_transport_packet_meta_t m; int k = c(3, 3);                    // handshake signed, data, handshake unsigned
        if (k == 1) wickr_transport_packet_meta_initialize_data(&m, u64(), c(2, 1) ? TRANSPORT_MAC_TYPE_NONE : TRANSPORT_MAC_TYPE_AUTH_CIPHER); else wickr_transport_packet_meta_initialize_handshake(&m, c(2, 1) ? 255 : 1, k == 2 ? TRANSPORT_MAC_TYPE_NONE : TRANSPORT_MAC_TYPE_EC_P521);
        wickr_transport_packet_t *p = wickr_transport_packet_create(m, buf({ 40, 1, 3000 }, 1, 90)); if (k == 0) { OChain x(mk_chain(e, "signer", "dev")); if (!wickr_transport_packet_sign(p, &e, x.get())) { fprintf(stderr, "tpkt sign\n"); abort(); } } return p;
    }
    wickr_transport_handshake_res_t *hres() { wickr_stream_key_t *a = skey(); return wickr_transport_handshake_res_create(a, wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, 3)); }
    wickr_ecdh_cipher_ctx_t *ecdh() { return wickr_ecdh_cipher_ctx_create(e, e.default_curve, cipher()); }
    wickr_ctx_t *ctx() { World w(e); w.account("user", 1, 0); wickr_ctx_t *x = w.d[0].ctx.release(); static const uint8_t v[] = { 4, 3, 2 }; x->pkt_enc_version = v[c(3, 2)]; return x; }
    wickr_ctx_gen_result_t *gen()
    {
        OBuf s(mk("a system")), id(mk("user")); ODev di(wickr_dev_info_create_new(&e, s.get())); wickr_ctx_gen_result_t *g = nullptr; int h = c(3, 2);
        if (h == 0) g = wickr_ctx_gen_new(e, di.get(), id.get()); else if (h == 1) { OEc k(ec(true)); g = wickr_ctx_gen_new_with_sig_key(e, di.get(), k.get(), id.get()); } else { ORoot r(wickr_root_keys_generate(&e)); g = wickr_ctx_gen_with_root_keys(e, di.get(), r.get(), id.get()); } if (!g) { fprintf(stderr, "gen\n"); abort(); } return g;
    }
    wickr_ctx_packet_t *cpkt()
    {
        World w(e); w.account("s", 1, 0); w.account("r", 1, 1); Recips rs({ w.d[1].nodes[0].get() }); OPayload p(mk_payload("body", "tag")); OEnc en(wickr_ctx_encode_packet(w.d[0].ctx.get(), p.get(), rs.arr.get())); Exact b(packet_bytes(en.get()));
        return c(2, 1) ? wickr_ctx_parse_packet_no_decode(w.d[1].ctx.get(), b, w.d[0].pub.get()) : wickr_ctx_parse_packet(w.d[1].ctx.get(), b, w.d[0].pub.get());
    }
};
struct Type {
    const char *name; std::function<void *(Maker &)> make; std::function<void *(const void *)> copy; std::function<void(void *)> destroy;
    std::function<void(Dump &, const void *)> dump; std::function<MB(const wickr_crypto_engine_t &, const void *)> ser; std::function<void *(const wickr_crypto_engine_t &, CB)> parse;
    bool pub_ser = false;                            // the serialised form is meant for publication: private parts are not carried
    std::string text(const void *p, bool pub = false) const { Dump o(pub); dump(o, p); return o.text; }
};
#define OBJ_BASE(N, T, MK, CP, DS) { Type t; t.name = N; t.make = [](Maker &m) -> void * { return (void *)(m.MK); }; t.copy = CP; t.destroy = [](void *p) { T *x = (T *)p; DS(&x); MC_CHECK(x == nullptr, "destroy-nulls", "destroying a %s does not clear the caller's pointer", N); }; t.dump = [](Dump &o, const void *p) { d(o, (const T *)p); };
#define OBJ(N, T, MK, CP, DS) OBJ_BASE(N, T, MK, ([](const void *p) -> void * { return (void *)CP((const T *)p); }), DS) v.push_back(t); }
#define OBJ_NOCOPY(N, T, MK, DS) OBJ_BASE(N, T, MK, nullptr, DS) v.push_back(t); }
#define OBJ_SER(N, T, MK, CP, DS, PUB, SER, PARSE) OBJ_BASE(N, T, MK, ([](const void *p) -> void * { return (void *)CP((const T *)p); }), DS) t.pub_ser = PUB; t.ser = [](const wickr_crypto_engine_t &e, const void *p) -> MB { const T *x = (const T *)p; return SER; }; t.parse = [](const wickr_crypto_engine_t &e, CB b) -> void * { return (void *)(PARSE); }; v.push_back(t); }
inline void hs_noop(const wickr_transport_handshake_t *, wickr_identity_chain_t *c, void *) { wickr_identity_chain_destroy(&c); }
inline Endpoint &sink() { static Endpoint *e = new Endpoint; return *e; }      // where the callbacks of transport objects end up
inline void sink_reset() { Endpoint &s = sink(); s.out.clear(); s.out_status.clear(); s.got.clear(); s.got_status.clear(); s.states.clear(); s.states_actual.clear(); s.asked.clear(); s.log.clear(); s.done = nullptr; s.pending = false; s.auto_answer = -1; }
inline wickr_transport_ctx_t *to_sink(wickr_transport_ctx_t *t) { wickr_transport_ctx_set_user_ctx(t, &sink()); return t; }
inline std::vector<Bytes> &feed() { static std::vector<Bytes> *f = new std::vector<Bytes>; return *f; }      // what a peer has for the endpoint or handshake just made
inline wickr_transport_ctx_t *mk_tctx(Maker &m)
{
    feed().clear();
    // an endpoint in each of its states
    sink_reset(); bool pinned = m.c(2, 2); int st = m.c(7, 7); OChain a(mk_chain(m.e, "alice", "a1")), b(mk_chain(m.e, "bob", "b1")); Chan ch(m.e, a.get(), b.get(), 3, pinned);
    if (st == 0) { ch.b.start(); feed() = ch.b.out; return to_sink(ch.a.t.release()); }
    if (st == 1) { ch.ini->start(); ch.b.recv(ch.a.out[0]); feed() = ch.b.out; return to_sink(ch.a.t.release()); }
    if (st == 2) { ch.ini->start(); ch.b.recv("junk"); return to_sink(ch.b.t.release()); }
    if (st == 3) { ch.b.auto_answer = -1; ch.ini->start(); ch.pump(); return to_sink(ch.b.t.release()); }        // being asked, or finalising
    if (!ch.connect()) { fprintf(stderr, "mk_tctx connect\n"); abort(); }
    auto more = [](Endpoint &p) { size_t n = p.out.size(); for (int i = 0; i < 4; i++) p.send(pat(6, i)); feed().assign(p.out.begin() + n, p.out.end()); };
    if (st == 4) { more(ch.b); return to_sink(ch.a.t.release()); }
    if (st == 5) { for (int i = 0; i < 5; i++) ch.b.send(pat(5, i)); ch.pump(); more(ch.a); return to_sink(ch.b.t.release()); }
    for (int i = 0; i < 5; i++) ch.b.send(pat(5, i)); ch.pump(); more(ch.b); return to_sink(ch.a.t.release());
}
inline wickr_transport_handshake_t *mk_hs(Maker &m)
{
    bool pinned = m.c(2, 2); int st = m.c(5, 5); OChain ca(mk_chain(m.e, "alice", "a1")), cb(mk_chain(m.e, "bob", "b1")), pa(pub_chain(m.e, ca.get())), pb(pub_chain(m.e, cb.get()));
    OHs a(wickr_transport_handshake_create(m.e, wickr_identity_chain_copy(ca.get()), pinned ? wickr_identity_chain_copy(pb.get()) : nullptr, hs_noop, 7, nullptr)), b(wickr_transport_handshake_create(m.e, wickr_identity_chain_copy(cb.get()), pinned ? wickr_identity_chain_copy(pa.get()) : nullptr, hs_noop, 9, nullptr));
    feed().clear(); auto give = [](const wickr_transport_packet_t *p) { if (p) feed().push_back(take(wickr_transport_packet_serialize(p))); };
    if (st == 0) { OTPkt p(wickr_transport_handshake_start(b.get())); give(p.get()); return a.release(); } OTPkt p1(wickr_transport_handshake_start(a.get())); if (st == 1) { OTPkt p(wickr_transport_handshake_process(b.get(), p1.get())); if (!p) p.reset(wickr_transport_handshake_verify_identity(b.get(), true)); give(p.get()); return a.release(); }
    OTPkt p2(wickr_transport_handshake_process(b.get(), p1.get())); if (st == 2) return b.release(); if (!pinned) p2.reset(wickr_transport_handshake_verify_identity(b.get(), true)); if (st == 3) return b.release();
    OTPkt p3(wickr_transport_handshake_process(a.get(), p2.get())); return a.release();
}
inline const std::vector<Type> &types()
{
    static std::vector<Type> v; if (!v.empty()) return v;
    OBJ("buffer", wickr_buffer_t, buf(std::vector<int>({ 16, 1, 4096 }), 2, 1), wickr_buffer_copy, wickr_buffer_destroy)
    OBJ_SER("cipher_result", wickr_cipher_result_t, cres(), wickr_cipher_result_copy, wickr_cipher_result_destroy, false, wickr_cipher_result_serialize(x), wickr_cipher_result_from_buffer(b))
    OBJ_SER("cipher_key", wickr_cipher_key_t, key(), wickr_cipher_key_copy, wickr_cipher_key_destroy, false, wickr_cipher_key_serialize(x), wickr_cipher_key_from_buffer(b))
    OBJ_SER("ecdsa_result", wickr_ecdsa_result_t, sig(), wickr_ecdsa_result_copy, wickr_ecdsa_result_destroy, false, wickr_ecdsa_result_serialize(x), wickr_ecdsa_result_create_from_buffer(b))
    OBJ("ec_key", wickr_ec_key_t, ec(), wickr_ec_key_copy, wickr_ec_key_destroy)
    OBJ_SER("ephemeral_keypair", wickr_ephemeral_keypair_t, eph(), wickr_ephemeral_keypair_copy, wickr_ephemeral_keypair_destroy, true, wickr_ephemeral_keypair_serialize(x), wickr_ephemeral_keypair_create_from_buffer(b, &e))
    OBJ_SER("identity", wickr_identity_t, ident(), wickr_identity_copy, wickr_identity_destroy, true, wickr_identity_serialize(x), wickr_identity_create_from_buffer(b, &e))
    OBJ_SER("identity_chain", wickr_identity_chain_t, chain(), wickr_identity_chain_copy, wickr_identity_chain_destroy, true, wickr_identity_chain_serialize(x), wickr_identity_chain_create_from_buffer(b, &e))
    OBJ_SER("identity_chain_private", wickr_identity_chain_t, chain(1), wickr_identity_chain_copy, wickr_identity_chain_destroy, false, wickr_identity_chain_serialize_private(x), wickr_identity_chain_create_from_buffer(b, &e))
    OBJ_SER("node", wickr_node_t, node(), wickr_node_copy, wickr_node_destroy, true, wickr_node_serialize(x), wickr_node_create_from_buffer(b, &e))
    OBJ("key_exchange", wickr_key_exchange_t, kex(), wickr_key_exchange_copy, wickr_key_exchange_destroy)
    OBJ_SER("key_exchange_set", wickr_key_exchange_set_t, kset(), wickr_key_exchange_set_copy, wickr_key_exchange_set_destroy, false, wickr_key_exchange_set_serialize(x), wickr_key_exchange_set_create_from_buffer(&e, b))
    OBJ("packet_meta", wickr_packet_meta_t, meta(), wickr_packet_meta_copy, wickr_packet_meta_destroy)
    OBJ_SER("payload", wickr_payload_t, payload(), wickr_payload_copy, wickr_payload_destroy, false, wickr_payload_serialize(x), wickr_payload_create_from_buffer(b))
    OBJ_SER("packet", wickr_packet_t, packet(), wickr_packet_copy, wickr_packet_destroy, false, wickr_packet_serialize(x), wickr_packet_create_from_buffer(b))
    OBJ("parse_result", wickr_parse_result_t, parse(), wickr_parse_result_copy, wickr_parse_result_destroy)
    OBJ("decode_result", wickr_decode_result_t, decode(), wickr_decode_result_copy, wickr_decode_result_destroy)
    OBJ("encoder_result", wickr_encoder_result_t, enc(), wickr_encoder_result_copy, wickr_encoder_result_destroy)
    OBJ("dev_info", wickr_dev_info_t, dev(), wickr_dev_info_copy, wickr_dev_info_destroy)
    OBJ_SER("root_keys", wickr_root_keys_t, root(), wickr_root_keys_copy, wickr_root_keys_destroy, false, wickr_root_keys_serialize(x), wickr_root_keys_create_from_buffer(&e, b))
    OBJ_SER("storage_keys", wickr_storage_keys_t, stor(), wickr_storage_keys_copy, wickr_storage_keys_destroy, false, wickr_storage_keys_serialize(x), wickr_storage_keys_create_from_buffer(b))
    OBJ_SER("stream_key", wickr_stream_key_t, skey(), wickr_stream_key_copy, wickr_stream_key_destroy, false, wickr_stream_key_serialize(x), wickr_stream_key_create_from_buffer(b))
    OBJ("stream_iv", wickr_stream_iv_t, siv(), wickr_stream_iv_copy, wickr_stream_iv_destroy)
    OBJ("stream_ctx", wickr_stream_ctx_t, sctx(), wickr_stream_ctx_copy, wickr_stream_ctx_destroy)
    OBJ_SER("kdf_meta", wickr_kdf_meta_t, kmeta(true), wickr_kdf_meta_copy, wickr_kdf_meta_destroy, false, wickr_kdf_meta_serialize(x), wickr_kdf_meta_create_with_buffer(b))
    OBJ("kdf_meta_any", wickr_kdf_meta_t, kmeta(false), wickr_kdf_meta_copy, wickr_kdf_meta_destroy)
    OBJ("kdf_result", wickr_kdf_result_t, kres(), wickr_kdf_result_copy, wickr_kdf_result_destroy)
    OBJ("fingerprint", wickr_fingerprint_t, fp(), wickr_fingerprint_copy, wickr_fingerprint_destroy)
    OBJ("transport_root_key", wickr_transport_root_key_t, troot(), wickr_transport_root_key_copy, wickr_transport_root_key_destroy)
    OBJ_SER("transport_packet", wickr_transport_packet_t, tpkt(), wickr_transport_packet_copy, wickr_transport_packet_destroy, false, wickr_transport_packet_serialize(x), wickr_transport_packet_create_from_buffer(b))
    OBJ("handshake_res", wickr_transport_handshake_res_t, hres(), wickr_transport_handshake_res_copy, wickr_transport_handshake_res_destroy)
    OBJ("ecdh_cipher_ctx", wickr_ecdh_cipher_ctx_t, ecdh(), wickr_ecdh_cipher_ctx_copy, wickr_ecdh_cipher_ctx_destroy)
    OBJ_SER("ctx", wickr_ctx_t, ctx(), wickr_ctx_copy, wickr_ctx_destroy, false, wickr_ctx_serialize(x), nullptr)
    OBJ("ctx_gen_result", wickr_ctx_gen_result_t, gen(), wickr_ctx_gen_result_copy, wickr_ctx_gen_result_destroy)
    OBJ_NOCOPY("ctx_packet", wickr_ctx_packet_t, cpkt(), wickr_ctx_packet_destroy)
    OBJ_BASE("transport_ctx", wickr_transport_ctx_t, c(1, 1), ([](const void *p) -> void * { return (void *)wickr_transport_ctx_copy((const wickr_transport_ctx_t *)p); }), wickr_transport_ctx_destroy) t.make = [](Maker &m) -> void * { return mk_tctx(m); }; v.push_back(t); }
    OBJ_BASE("transport_handshake", wickr_transport_handshake_t, c(1, 1), ([](const void *p) -> void * { return (void *)wickr_transport_handshake_copy((const wickr_transport_handshake_t *)p); }), wickr_transport_handshake_destroy) t.make = [](Maker &m) -> void * { return mk_hs(m); }; v.push_back(t); }
    OBJ_BASE("exchange_array", wickr_exchange_array_t, exarr(m.c(3, 3)), ([](const void *p) -> void * { return (void *)wickr_exchange_array_copy((wickr_exchange_array_t *)p); }), wickr_exchange_array_destroy) v.push_back(t); }
    return v;
}
