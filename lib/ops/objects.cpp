#include "../ops.hpp"
namespace ops {
std::vector<OpDef> objects()
{
    std::vector<OpDef> v;
    // constructors
#define UNP(...) __VA_ARGS__
#define CT(NAME, OUT, SETUP, CALL, RELEASE) add(v, "create-" NAME, [](ER e) { struct S { UNP SETUP }; auto s = sp<S>(e); return ret<UNP OUT>([=] { auto *r = (UNP CALL); if (r) { UNP RELEASE; } return r; }, [](void *) {}, false); });
    CT("cipher-result", (OCipher), (OBuf a{ mk(pat(12)) }; OBuf b{ mk(pat(20)) }; OBuf c{ mk(pat(16)) }; S(ER) {}), (wickr_cipher_result_create(CIPHER_AES256_GCM, s->a.get(), s->b.get(), s->c.get())), (s->a.release(); s->b.release(); s->c.release()))
    CT("cipher-key", (OKey), (OBuf a{ mk(pat(32)) }; S(ER) {}), (wickr_cipher_key_create(CIPHER_AES256_GCM, s->a.get())), (s->a.release()))
    CT("ecdsa-result", (OSig), (OBuf a{ mk(pat(100)) }; S(ER) {}), (wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, s->a.get())), (s->a.release()))
    CT("ec-key", (OEc), (OBuf a{ mk(pat(30)) }; OBuf b{ mk(pat(30)) }; S(ER) {}), (wickr_ec_key_create(EC_CURVE_NIST_P521, s->a.get(), s->b.get())), (s->a.release(); s->b.release()))
    CT("ephemeral-keypair", (OEph), (OEc a; S(ER e) : a(e.wickr_crypto_engine_ec_rand_key(e.default_curve)) {}), (wickr_ephemeral_keypair_create(4, s->a.get(), nullptr)), (s->a.release()))
    CT("identity", (OId), (OBuf i{ mk(pat(32)) }; OEc a; S(ER e) : a(e.wickr_crypto_engine_ec_rand_key(e.default_curve)) {}), (wickr_identity_create(IDENTITY_TYPE_ROOT, s->i.get(), s->a.get(), nullptr)), (s->i.release(); s->a.release()))
    CT("identity-chain", (OChain), (OChain c; OId r; OId n; S(ER e) : c(mk_chain(e, "u", "d")) { r.reset(wickr_identity_copy(c->root)); n.reset(wickr_identity_copy(c->node)); }), (wickr_identity_chain_create(s->r.get(), s->n.get())), (s->r.release(); s->n.release()))
    CT("node", (ONode), (OBuf i{ mk(pat(32)) }; OChain c; S(ER e) : c(mk_chain(e, "u", "d")) {}), (wickr_node_create(s->i.get(), s->c.get(), nullptr)), (s->i.release(); s->c.release()))
    CT("key-exchange", (OKex), (OBuf i{ mk(pat(32)) }; OCipher c; S(ER e) { Maker m{ e, false }; m.use_fixed = true; c.reset(m.cres()); }), (wickr_key_exchange_create(s->i.get(), 3, s->c.get())), (s->i.release(); s->c.release()))
    CT("packet-meta", (Own<wickr_packet_meta_t, wickr_packet_meta_destroy>), (OBuf t{ mk("tag") }; S(ER) {}), (wickr_packet_meta_create(wickr_ephemeral_info_t{ 1, 2 }, s->t.get(), 7)), (s->t.release()))
    CT("payload", (OPayload), (OBuf b{ mk("body") }; Own<wickr_packet_meta_t , wickr_packet_meta_destroy> m; S(ER) { m.reset(wickr_packet_meta_create(wickr_ephemeral_info_t{ 1, 2 }, mk("tag"), 7)); }), (wickr_payload_create(s->m.get(), s->b.get())), (s->b.release(); s->m.release()))
    CT("packet", (OPacket), (OBuf b{ mk("body") }; OSig g; S(ER) { g.reset(wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, mk(pat(100)))); }), (wickr_packet_create(4, s->b.get(), s->g.get())), (s->b.release(); s->g.release()))
    CT("parse-failure", (OParse), (S(ER) {}), (wickr_parse_result_create_failure(PACKET_SIGNATURE_INVALID, ERROR_MAC_INVALID)), ())
    CT("decode-failure", (ODecode), (S(ER) {}), (wickr_decode_result_create_failure(ERROR_MAC_INVALID)), ())
    CT("decode-success", (ODecode), (OPayload p{ mk_payload("b", "t") }; OKey k; S(ER e) : k(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)) {}), (wickr_decode_result_create_success(s->p.get(), s->k.get())), (s->p.release(); s->k.release()))
    CT("storage-keys", (OStor), (OKey a; OKey b; S(ER e) : a(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)), b(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)) {}), (wickr_storage_keys_create(s->a.get(), s->b.get())), (s->a.release(); s->b.release()))
    CT("root-keys", (ORoot), (OEc c; OKey a; OKey b; S(ER e) : c(e.wickr_crypto_engine_ec_rand_key(e.default_curve)), a(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)), b(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)) {}), (wickr_root_keys_create(s->c.get(), s->a.get(), s->b.get())), (s->c.release(); s->a.release(); s->b.release()))
    CT("stream-key", (OSKey), (OKey a; OBuf b{ mk(pat(32)) }; OBuf u{ mk("u") }; S(ER e) : a(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)) {}), (wickr_stream_key_create_user_data(s->a.get(), s->b.get(), 4, s->u.get())), (s->a.release(); s->b.release(); s->u.release()))
    CT("kdf-meta", (OKdfMeta), (OBuf a{ mk(pat(16)) }; S(ER) {}), (wickr_kdf_meta_create(KDF_SCRYPT_2_17, s->a.get(), nullptr)), (s->a.release()))
    CT("kdf-result", (OKdf), (OBuf a{ mk(pat(32)) }; OKdfMeta m; S(ER) { m.reset(wickr_kdf_meta_create(KDF_SCRYPT_2_17, mk(pat(16)), nullptr)); }), (wickr_kdf_result_create(s->m.get(), s->a.get())), (s->a.release(); s->m.release()))
    CT("kdf-meta-expand", (OKdfMeta), (OBuf a{ mk("info") }; S(ER) {}), (wickr_kdf_meta_create_hkdf_expand(&DIGEST_SHA_512, s->a.get(), 100)), (s->a.release()))
    CT("fingerprint", (OFp), (OBuf a{ mk(pat(64)) }; S(ER) {}), (wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, s->a.get())), (s->a.release()))
    CT("transport-root-key", (Own<wickr_transport_root_key_t, wickr_transport_root_key_destroy>), (OBuf a{ mk(pat(32)) }; S(ER) {}), (wickr_transport_root_key_create(s->a.get(), CIPHER_AES256_GCM, 4, 5)), (s->a.release()))
    CT("transport-packet", (OTPkt), (OBuf a{ mk("body") }; wickr_transport_packet_meta_t m; S(ER) { wickr_transport_packet_meta_initialize_data(&m, 4, TRANSPORT_MAC_TYPE_AUTH_CIPHER); }), (wickr_transport_packet_create(s->m, s->a.get())), (s->a.release()))
    CT("handshake-res", (Own<wickr_transport_handshake_res_t, wickr_transport_handshake_res_destroy>), (OSKey a; OSKey b; S(ER e) : a(wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, 2)), b(wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, 3)) {}), (wickr_transport_handshake_res_create(s->a.get(), s->b.get())), (s->a.release(); s->b.release()))
    CT("handshake", (OHs), (OChain c; OChain d; wickr_crypto_engine_t e; S(ER x) : c(mk_chain(x, "u", "d")), d(mk_chain(x, "v", "d")), e(x) {}), (wickr_transport_handshake_create(s->e, s->c.get(), s->d.get(), hs_noop, 4, nullptr)), (s->c.release(); s->d.release()))
    CT("transport-ctx", (OTrans), (OChain c; OChain d; wickr_crypto_engine_t e; S(ER x) : c(mk_chain(x, "u", "d")), d(mk_chain(x, "v", "d")), e(x) {}), (wickr_transport_ctx_create(s->e, s->c.get(), s->d.get(), 4, Endpoint::callbacks(), &sink())), (s->c.release(); s->d.release()))
    CT("ecdh-ctx", (Own<wickr_ecdh_cipher_ctx_t, wickr_ecdh_cipher_ctx_destroy>), (OEc k; wickr_crypto_engine_t e; S(ER x) : k(x.wickr_crypto_engine_ec_rand_key(x.default_curve)), e(x) {}), (wickr_ecdh_cipher_ctx_create_key(s->e, s->k.get(), CIPHER_AES256_GCM)), (s->k.release()))
    CT("stream-ctx", (OStream), (OSKey k; wickr_crypto_engine_t e; S(ER x) : k(wickr_stream_key_create_rand(x, CIPHER_AES256_GCM, 4)), e(x) {}), (wickr_stream_ctx_create(s->e, s->k.get(), STREAM_DIRECTION_ENCODE)), (s->k.release()))
    CT("encoder-result", (OEnc), (OKey k; OPacket p; S(ER x) : k(x.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)) { p.reset(wickr_packet_create(4, mk("body"), wickr_ecdsa_result_create(EC_CURVE_NIST_P521, DIGEST_SHA_512, mk(pat(100))))); }), (wickr_encoder_result_create(s->k.get(), s->p.get())), (s->k.release(); s->p.release()))
    CT("dev-info", (ODev), (OBuf a{ mk(pat(32)) }; OBuf b{ mk(pat(32)) }; OBuf c{ mk(pat(32)) }; OBuf d{ mk(pat(32)) }; S(ER) {}), (wickr_dev_info_create(s->a.get(), s->b.get(), s->c.get(), s->d.get())), (s->a.release(); s->b.release(); s->c.release(); s->d.release()))
    CT("ctx", (OCtx), (OChain c; ODev d; OStor k; wickr_crypto_engine_t e; S(ER x) : c(mk_chain(x, "u", "d")), e(x) { d.reset(wickr_dev_info_create(mk(pat(32)), mk(pat(32, 1)), mk(pat(32, 2)), mk(pat(32, 3)))); wickr_cipher_key_t *a = x.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM); k.reset(wickr_storage_keys_create(a, x.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM))); }), (wickr_ctx_create(s->e, s->d.get(), s->c.get(), s->k.get())), (s->d.release(); s->c.release(); s->k.release()))
    // generators and derivations
    add(v, "dev-info-new", [](ER e) { auto i = sp<Exact>("sys"); return ret<ODev>([=] { return wickr_dev_info_create_new(&e, *i); }, [=](wickr_dev_info_t *d) { ODev x(wickr_dev_info_derive(&e, wickr_buffer_copy(d->dev_salt), *i)); OPX(dmp(x.get()) == dmp(d), "not derivable"); }); });
    add(v, "dev-info-derive", [](ER e) { struct S { OBuf salt{ mk(pat(64)) }; Exact i{ "sys" }; std::string want; }; auto s = sp<S>(); { Exact j("sys"); ODev x(wickr_dev_info_derive(&e, mk(pat(64)), j)); s->want = dmp(x.get()); } return ret<ODev>([=] { auto *r = wickr_dev_info_derive(&e, s->salt.get(), s->i); if (r) s->salt.release(); return r; }, [=](wickr_dev_info_t *d) { OPX(dmp(d) == s->want, "derived"); }, false); });
    add(v, "root-keys-generate", [](ER e) { return ret<ORoot>([=] { return wickr_root_keys_generate(&e); }, [](wickr_root_keys_t *r) { OPX(r->node_signature_root && r->node_storage_root && r->remote_storage_root && !same(r->node_storage_root->key_data, r->remote_storage_root->key_data), "incomplete"); }); });
    add(v, "root-keys-localize", [](ER e) { auto a = account(e); auto want = sp<std::string>(dmp(a->g->ctx->storage_keys)); return ret<OStor>([=] { return wickr_root_keys_localize(a->g->root_keys, &e, a->d.get()); }, [=](wickr_storage_keys_t *s) { OPX(dmp(s) == *want, "keys"); }); });
    add(v, "root-keys-export", [](ER e) { auto a = account(e); return ret<OCipher>([=] { return wickr_root_keys_export(a->g->root_keys, &e, a->g->recovery_key); }, [=](wickr_cipher_result_t *r) { OBuf b(wickr_cipher_result_serialize(r)); ORoot x(wickr_ctx_gen_import_recovery(e, b.get(), a->g->recovery_key)); OPX(x && dmp(x.get()) == dmp(a->g->root_keys), "does not import"); }); });
    add(v, "stream-key-random", [](ER e) { return ret<OSKey>([=] { return wickr_stream_key_create_rand(e, CIPHER_AES256_GCM, 9); }, [](wickr_stream_key_t *k) { OPX(k->cipher_key && k->evolution_key && k->packets_per_evolution == 9, "incomplete"); }); });
    add(v, "transport-root-key-random", [](ER e) { return ret<Own<wickr_transport_root_key_t, wickr_transport_root_key_destroy>>([=] { return wickr_transport_root_key_create_random(&e, CIPHER_AES256_GCM, 4, 5); }, [](wickr_transport_root_key_t *k) { OPX(k->secret && k->secret->length == 32, "incomplete"); }); });
    for (int dir = 0; dir < 2; dir++) add(v, dir ? "stream-key-from-root-decode" : "stream-key-from-root-encode", [dir](ER e) { struct S { Own<wickr_transport_root_key_t, wickr_transport_root_key_destroy> k; Exact salt{ "salt" }, id{ "stream" }; std::string want; }; auto s = sp<S>(); s->k.reset(wickr_transport_root_key_create_random(&e, CIPHER_AES256_GCM, 4, 5)); auto f = [=] { return wickr_transport_root_key_to_stream_key(s->k.get(), &e, s->salt, s->id, dir ? STREAM_DIRECTION_DECODE : STREAM_DIRECTION_ENCODE); }; { OSKey x(f()); s->want = dmp(x.get()); } return ret<OSKey>(f, [=](wickr_stream_key_t *k) { OPX(dmp(k) == s->want, "stream key"); }); });
    add(v, "ephemeral-keypair-generate", [](ER e) { auto c = sp<OChain>(mk_chain(e, "u", "d")); return ret<OEph>([=] { return wickr_ephemeral_keypair_generate_identity(&e, 12, (*c)->node); }, [=](wickr_ephemeral_keypair_t *k) { OPX(k->identifier == 12 && wickr_ephemeral_keypair_verify_owner(k, &e, (*c)->node), "keypair"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "ephemeral-verify-other" : "ephemeral-verify", [bad](ER e) { auto c = sp<OChain>(mk_chain(e, "u", "d")), c2 = sp<OChain>(mk_chain(e, "u", "d")); auto k = sp<OEph>(wickr_ephemeral_keypair_generate_identity(&e, 12, (*c)->node)); return yes([=] { return wickr_ephemeral_keypair_verify_owner(k->get(), &e, bad ? (*c2)->node : (*c)->node); }); }, !bad);
    add(v, "identity-sign", [](ER e) { auto c = sp<OChain>(mk_chain(e, "u", "d")); auto d = sp<Exact>("data"); return ret<OSig>([=] { return wickr_identity_sign((*c)->node, &e, *d); }, [=](wickr_ecdsa_result_t *s) { OPX(e.wickr_crypto_engine_ec_verify(s, (*c)->node->sig_key, *d), "signature"); }); });
    for (int given = 0; given < 2; given++) add(v, given ? "node-identity-gen-named" : "node-identity-gen", [given](ER e) { auto c = sp<OChain>(mk_chain(e, "u", "d")); auto i = sp<Exact>(pat(32)); return ret<OId>([=] { return wickr_node_identity_gen(&e, (*c)->root, given ? (CB)*i : nullptr); }, [=](wickr_identity_t *n) { OChain x(wickr_identity_chain_create(wickr_identity_copy((*c)->root), wickr_identity_copy(n))); OPX(wickr_identity_chain_validate(x.get(), &e), "not a valid node identity"); OPX(!given || is(n->identifier, pat(32)), "identifier"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "chain-validate-forged" : "chain-validate", [bad](ER e) { auto c = sp<OChain>(mk_chain(e, "u", "d")), c2 = sp<OChain>(mk_chain(e, "u", "d")); if (bad) { wickr_identity_destroy(&(*c)->root); (*c)->root = wickr_identity_copy((*c2)->root); } (*c)->status = IDENTITY_CHAIN_STATUS_UNKNOWN; auto r = sp<int>(0);
        return Inst{ [=] { *r = wickr_identity_chain_validate(c->get(), &e); }, [=]() -> int { return *r; }, [=] { *r = 0; }, true }; }, !bad);
    for (int bad = 0; bad < 3; bad++) add(v, bad == 0 ? "node-verify" : bad == 1 ? "node-verify-forged-chain" : "node-verify-foreign-key", [bad](ER e) { auto w = sp<World>(e); w->account("u", 1, 1); w->account("v", 1, 1); auto n = sp<ONode>(wickr_node_copy(w->d[0].nodes[0].get())); if (bad == 1) { wickr_identity_destroy(&(*n)->id_chain->root); (*n)->id_chain->root = wickr_identity_copy(w->d[1].pub->root); } if (bad == 2) wickr_node_rotate_keypair(n->get(), w->d[1].keys[0].get(), true); return yes([=] { return wickr_node_verify_signature_chain(n->get(), &e); }); }, bad == 0);
    add(v, "node-rotate-copy", [](ER e) { struct S { World w; ONode n; S(ER e) : w(e) { w.account("u", 1, 2); n.reset(wickr_node_copy(w.d[0].nodes[0].get())); } }; auto s = sp<S>(e); auto r = sp<int>(0); return Inst{ [=] { *r = wickr_node_rotate_keypair(s->n.get(), s->w.d[0].keys[1].get(), true); }, [=]() -> int { if (*r) { OPX(s->n->ephemeral_keypair && s->n->ephemeral_keypair->identifier == s->w.d[0].keys[1]->identifier && same(s->n->ephemeral_keypair->ec_key->pub_data, s->w.d[0].keys[1]->ec_key->pub_data), "key pair"); return 1; } OPX(!s->n->ephemeral_keypair || s->n->ephemeral_keypair->ec_key, "broken key pair"); return 0; }, [=] { *r = 0; }, true }; });
    add(v, "fingerprint-gen", [](ER e) { auto k = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); auto i = sp<Exact>("someone"); auto f = [=] { return wickr_fingerprint_gen(e, k->get(), *i, WICKR_FINGERPRINT_TYPE_SHA512); }; OFp x(f()); auto want = sp<std::string>(dmp(x.get())); return ret<OFp>(f, [=](wickr_fingerprint_t *p) { OPX(dmp(p) == *want, "fingerprint"); }); });
    add(v, "fingerprint-bilateral", [](ER e) { struct S { OFp a, b; std::string want; }; auto s = sp<S>(); OEc k(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); Exact i("one"), j("two"); s->a.reset(wickr_fingerprint_gen(e, k.get(), i, WICKR_FINGERPRINT_TYPE_SHA512)); s->b.reset(wickr_fingerprint_gen(e, k.get(), j, WICKR_FINGERPRINT_TYPE_SHA512)); auto f = [=] { return wickr_fingerprint_gen_bilateral(e, s->a.get(), s->b.get(), WICKR_FINGERPRINT_TYPE_SHA512); }; { OFp x(f()); s->want = dmp(x.get()); } return ret<OFp>(f, [=](wickr_fingerprint_t *p) { OPX(dmp(p) == s->want, "fingerprint"); }); });
    for (int m = 0; m < 4; m++) add(v, std::string("fingerprint-text-") + std::to_string(m), [m](ER e) { auto p = sp<OFp>(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(pat(64)))); auto f = [=] { return m & 1 ? wickr_fingerprint_get_hex(p->get(), m & 2 ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG) : wickr_fingerprint_get_b32(p->get(), m & 2 ? FINGERPRINT_OUTPUT_SHORT : FINGERPRINT_OUTPUT_LONG); }; auto want = sp<Bytes>(take(f())); return ret<OBuf>(f, [=](MB b) { OPX(is(b, *want), "text"); }); });
    add(v, "identity-fingerprint", [](ER e) { auto c = sp<OChain>(mk_chain(e, "u", "d")); auto f = [=] { return wickr_identity_get_fingerprint((*c)->root, e); }; OFp x(f()); auto want = sp<std::string>(dmp(x.get())); return ret<OFp>(f, [=](wickr_fingerprint_t *p) { OPX(dmp(p) == *want, "fingerprint"); }); });
    add(v, "identity-bilateral", [](ER e) { auto c = sp<OChain>(mk_chain(e, "u", "d")), c2 = sp<OChain>(mk_chain(e, "v", "d")); auto f = [=] { return wickr_identity_get_bilateral_fingerprint((*c)->root, (*c2)->root, e); }; OFp x(f()); auto want = sp<std::string>(dmp(x.get())); return ret<OFp>(f, [=](wickr_fingerprint_t *p) { OPX(dmp(p) == *want, "fingerprint"); }); });
    static const char *tx[] = { "base64", "from-base64", "hex", "from-hex", "base32", "from-base32" };
    for (int m = 0; m < 6; m++) add(v, std::string("text-") + tx[m], [m](ER) { auto in = sp<Exact>(m == 1 ? Bytes("QUJDREVGRw==") : m == 3 ? Bytes("0a0b0c") : m == 5 ? Bytes("C5H66S35") : pat(21)); auto f = [=]() -> MB { switch (m) { case 0: return getBase64FromData(*in); case 1: return getDataFromBase64(*in); case 2: return getHexStringFromData(*in); case 3: return getDataFromHexString(*in); case 4: return base32_encode(*in); default: return base32_decode(*in); } }; OBuf w(f()); if (!w) { fprintf(stderr, "ops: text %d\n", m); abort(); } auto want = sp<Bytes>(str(w.get())); return ret<OBuf>(f, [=](MB b) { OPX(is(b, *want), "text"); }); });
    add(v, "buffer-concat", [](ER) { auto a = sp<Exact>("ab"), b = sp<Exact>("cd"); return ret<OBuf>([=] { return wickr_buffer_concat(*a, *b); }, [](MB x) { OPX(is(x, "abcd"), "concatenation"); }); });
    add(v, "buffer-section", [](ER) { auto a = sp<Exact>("abcdef"); return ret<OBuf>([=] { return wickr_buffer_copy_section(*a, 2, 3); }, [](MB x) { OPX(is(x, "cde"), "section"); }); });
    add(v, "ec-key-fixed", [](ER e) { auto k = sp<OEc>(real_engine().wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); auto f = [=] { return wickr_ec_key_get_pubdata_fixed_len(k->get()); }; auto want = sp<Bytes>(take(f())); return ret<OBuf>(f, [=](MB b) { OPX(is(b, *want), "public key"); }); });
    add(v, "node-array-copy", [](ER e) { struct S { World w; std::unique_ptr<Recips> r; S(ER e) : w(e) { w.account("u", 2, 1); r.reset(new Recips({ w.d[0].nodes[0].get(), w.d[1].nodes[0].get() })); } }; auto s = sp<S>(e); auto o = sp<wickr_node_array_t *>(nullptr); return Inst{ [=] { *o = wickr_node_array_copy(s->r->arr.get()); }, [=]() -> int { if (!*o) return 0; for (int i = 0; i < 2; i++) { wickr_node_t *n = wickr_node_array_fetch_item(*o, i); OPX(n && n != s->r->own[i].get() && dmp(n) == dmp(s->r->own[i].get()), "item"); } return 1; }, [=] { if (*o) { wickr_array_destroy(o.get(), true); } *o = nullptr; }, true }; });
    add(v, "exchange-array-copy", [](ER e) { Maker m{ e, false }; m.use_fixed = true; auto a = sp<wickr_exchange_array_t *>(m.exarr(2)); struct K { Sp<wickr_exchange_array_t *> a; ~K() { wickr_exchange_array_destroy(a.get()); } }; auto k = sp<K>(); auto o = sp<wickr_exchange_array_t *>(nullptr); k->a = a; return Inst{ [=] { (void)k; *o = wickr_exchange_array_copy(*a); }, [=]() -> int { if (!*o) return 0; OPX(dmp((const wickr_array_t *)*o) == dmp((const wickr_array_t *)*a), "items"); return 1; }, [=] { if (*o) wickr_exchange_array_destroy(o.get()); *o = nullptr; }, true }; });
    return v;
}
}
