#include "../ops.hpp"
namespace ops {
std::vector<OpDef> accounts()
{
    std::vector<OpDef> v; auto full = [](ER e, wickr_ctx_gen_result_t *g, const wickr_root_keys_t *keep) { OPX(g->ctx && g->root_keys && g->recovery_key, "incomplete account"); OPX(usable(e, g->ctx), "unusable account"); OPX(!keep || dmp(g->root_keys) == dmp(keep), "other root keys"); OPX(same(g->ctx->id_chain->root->sig_key->pri_data, g->root_keys->node_signature_root->pri_data) && same(g->ctx->storage_keys->remote->key_data, g->root_keys->remote_storage_root->key_data), "account does not belong to its root keys"); };
    add(v, "gen-new", [=](ER e) { auto a = account(e); return ret<OGen>([=] { return wickr_ctx_gen_new(e, a->d.get(), a->id.get()); }, [=](wickr_ctx_gen_result_t *g) { full(e, g, nullptr); }); });
    add(v, "gen-with-sig-key", [=](ER e) { auto a = account(e); auto k = sp<OEc>(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); return ret<OGen>([=] { return wickr_ctx_gen_new_with_sig_key(e, a->d.get(), k->get(), a->id.get()); }, [=](wickr_ctx_gen_result_t *g) { full(e, g, nullptr); OPX(same(g->root_keys->node_signature_root->pri_data, (*k)->pri_data), "another signing key"); }); });
    add(v, "gen-with-root-keys", [=](ER e) { auto a = account(e); return ret<OGen>([=] { return wickr_ctx_gen_with_root_keys(e, a->d.get(), a->g->root_keys, a->id.get()); }, [=](wickr_ctx_gen_result_t *g) { full(e, g, a->g->root_keys); }); });
    add(v, "gen-with-recovery", [=](ER e) { auto a = account(e); auto r = sp<OBuf>(wickr_ctx_gen_result_make_recovery(a->g.get())); return ret<OGen>([=] { return wickr_ctx_gen_with_recovery(e, a->d.get(), r->get(), a->g->recovery_key, a->id.get()); }, [=](wickr_ctx_gen_result_t *g) { full(e, g, a->g->root_keys); OPX(dmp(g->recovery_key) == dmp(a->g->recovery_key), "another recovery key"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "gen-with-passphrase-wrong" : "gen-with-passphrase", [=](ER e) { struct S { Sp<Acc> a; OBuf r, k, p{ mk("a long phrase") }, q; }; auto s = sp<S>(); s->a = account(e); s->q.reset(mk(bad ? "other" : "a long phrase")); s->r.reset(wickr_ctx_gen_result_make_recovery(s->a->g.get())); s->k.reset(wickr_ctx_gen_export_recovery_key_passphrase(s->a->g.get(), s->p.get())); return ret<OGen>([=] { return wickr_ctx_gen_with_passphrase(e, s->a->d.get(), s->k.get(), s->q.get(), s->r.get(), s->a->id.get()); }, [=](wickr_ctx_gen_result_t *g) { MC_CHECK(!bad, "unauthenticated", "recovered with a wrong passphrase"); full(e, g, s->a->g->root_keys); OPX(dmp(g->recovery_key) == dmp(s->a->g->recovery_key), "another recovery key"); }); }, !bad);
    add(v, "make-recovery", [](ER e) { auto a = account(e); return ret<OBuf>([=] { return wickr_ctx_gen_result_make_recovery(a->g.get()); }, [=](MB b) { ORoot x(wickr_ctx_gen_import_recovery(e, b, a->g->recovery_key)); OPX(x && dmp(x.get()) == dmp(a->g->root_keys), "does not import"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "import-recovery-wrong" : "import-recovery", [bad](ER e) { struct S { Sp<Acc> a; OBuf r; OKey k; }; auto s = sp<S>(); s->a = account(e); s->r.reset(wickr_ctx_gen_result_make_recovery(s->a->g.get())); s->k.reset(bad ? e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM) : wickr_cipher_key_copy(s->a->g->recovery_key)); return ret<ORoot>([=] { return wickr_ctx_gen_import_recovery(e, s->r.get(), s->k.get()); }, [=](wickr_root_keys_t *x) { MC_CHECK(!bad, "unauthenticated", "recovered with a wrong key"); OPX(dmp(x) == dmp(s->a->g->root_keys), "root keys"); }); }, !bad);
    add(v, "export-recovery-key", [](ER e) { auto a = account(e); auto p = sp<Exact>("a long phrase"); return ret<OBuf>([=] { return wickr_ctx_gen_export_recovery_key_passphrase(a->g.get(), *p); }, [=](MB b) { OKey k(wickr_ctx_gen_import_recovery_key_passphrase(e, b, *p)); OPX(k && dmp(k.get()) == dmp(a->g->recovery_key), "does not import"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "import-recovery-key-wrong" : "import-recovery-key", [bad](ER e) { struct S { Sp<Acc> a; OBuf b; Exact p; S(int bad) : p(bad ? "phrasf" : "a long phrase") {} }; auto s = sp<S>(bad); s->a = account(e); Exact p("a long phrase"); s->b.reset(wickr_ctx_gen_export_recovery_key_passphrase(s->a->g.get(), p)); return ret<OKey>([=] { return wickr_ctx_gen_import_recovery_key_passphrase(e, s->b.get(), s->p); }, [=](wickr_cipher_key_t *k) { MC_CHECK(!bad, "unauthenticated", "opened with a wrong passphrase"); OPX(dmp(k) == dmp(s->a->g->recovery_key), "key"); }); }, !bad);
    add(v, "ctx-reload", [](ER e) { struct S { Sp<Acc> a; OBuf b; ODev d; }; auto s = sp<S>(); s->a = account(e); s->b.reset(wickr_ctx_serialize(s->a->g->ctx)); s->d.reset(wickr_dev_info_copy(s->a->d.get())); return ret<OCtx>([=] { auto *c = wickr_ctx_create_from_buffer(e, s->d.get(), s->b.get()); if (c) s->d.release(); return c; }, [=](wickr_ctx_t *c) { OPX(usable(e, c), "unusable"); OPX(dmp(c->storage_keys) == dmp(s->a->g->ctx->storage_keys), "other keys"); }, false); });
    add(v, "ctx-export", [](ER e) { auto a = account(e); auto p = sp<Exact>("a long phrase"); return ret<OBuf>([=] { return wickr_ctx_export(a->g->ctx, *p); }, [=](MB b) { ODev d(wickr_dev_info_copy(a->d.get())); OCtx c(wickr_ctx_import(e, d.get(), b, *p)); OPX(c && usable(e, c.get()), "does not import"); d.release(); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "ctx-import-wrong" : "ctx-import", [bad](ER e) { struct S { Sp<Acc> a; OBuf b; ODev d; Exact p; S(int bad) : p(bad ? "phrasf" : "a long phrase") {} }; auto s = sp<S>(bad); s->a = account(e); Exact p("a long phrase"); s->b.reset(wickr_ctx_export(s->a->g->ctx, p)); s->d.reset(wickr_dev_info_copy(s->a->d.get())); return ret<OCtx>([=] { auto *c = wickr_ctx_import(e, s->d.get(), s->b.get(), s->p); if (c) s->d.release(); return c; }, [=](wickr_ctx_t *c) { MC_CHECK(!bad, "unauthenticated", "opened with a wrong passphrase"); OPX(usable(e, c) && dmp(c->storage_keys) == dmp(s->a->g->ctx->storage_keys), "context"); }, false); }, !bad);
    add(v, "storage-export", [](ER e) { auto a = account(e); auto p = sp<Exact>("a long phrase"); return ret<OBuf>([=] { return wickr_ctx_export_storage_keys(a->g->ctx, *p); }, [=](MB b) { OStor k(wickr_ctx_import_storage_keys(e, b, *p)); OPX(k && dmp(k.get()) == dmp(a->g->ctx->storage_keys), "does not import"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "storage-import-wrong" : "storage-import", [bad](ER e) { struct S { Sp<Acc> a; OBuf b; Exact p; S(int bad) : p(bad ? "phrasf" : "a long phrase") {} }; auto s = sp<S>(bad); s->a = account(e); Exact p("a long phrase"); s->b.reset(wickr_ctx_export_storage_keys(s->a->g->ctx, p)); return ret<OStor>([=] { return wickr_ctx_import_storage_keys(e, s->b.get(), s->p); }, [=](wickr_storage_keys_t *k) { MC_CHECK(!bad, "unauthenticated", "opened with a wrong passphrase"); OPX(dmp(k) == dmp(s->a->g->ctx->storage_keys), "keys"); }); }, !bad);
    for (int r = 0; r < 2; r++) {
        add(v, r ? "cipher-remote" : "cipher-local", [r](ER e) { auto a = account(e); auto t = sp<Exact>(pat(30)); return ret<OCipher>([=] { return r ? wickr_ctx_cipher_remote(a->g->ctx, *t) : wickr_ctx_cipher_local(a->g->ctx, *t); }, [=](wickr_cipher_result_t *c) { OBuf d(r ? wickr_ctx_decipher_remote(a->g->ctx, c) : wickr_ctx_decipher_local(a->g->ctx, c)); OPX(is(d.get(), pat(30)), "does not open"); OPX(!is(c->cipher_text, pat(30)), "not encrypted"); }); });
        add(v, r ? "decipher-remote" : "decipher-local", [r](ER e) { struct S { Sp<Acc> a; OCipher c; }; auto s = sp<S>(); s->a = account(e); Exact t(pat(30)); s->c.reset(r ? wickr_ctx_cipher_remote(s->a->g->ctx, t) : wickr_ctx_cipher_local(s->a->g->ctx, t)); return ret<OBuf>([=] { return r ? wickr_ctx_decipher_remote(s->a->g->ctx, s->c.get()) : wickr_ctx_decipher_local(s->a->g->ctx, s->c.get()); }, [=](MB b) { OPX(is(b, pat(30)), "plaintext"); }); });
        add(v, r ? "decipher-remote-altered" : "decipher-local-altered", [r](ER e) { struct S { Sp<Acc> a; OCipher c; }; auto s = sp<S>(); s->a = account(e); Exact t(pat(30)); s->c.reset(r ? wickr_ctx_cipher_remote(s->a->g->ctx, t) : wickr_ctx_cipher_local(s->a->g->ctx, t)); s->c->auth_tag->bytes[2] ^= 4; return ret<OBuf>([=] { return r ? wickr_ctx_decipher_remote(s->a->g->ctx, s->c.get()) : wickr_ctx_decipher_local(s->a->g->ctx, s->c.get()); }, [=](MB) { MC_CHECK(false, "unauthenticated", "altered data opened"); }); }, 0); }
    return v;
}
std::vector<OpDef> messages()
{
    std::vector<OpDef> v;
    for (int ver = 2; ver <= 4; ver++) { std::string vn = "-v" + std::to_string(ver);
        add(v, "encode" + vn, [ver](ER e) { auto m = sp<Msg>(e, ver); return ret<OEnc>([=] { return wickr_ctx_encode_packet(m->w.d[0].ctx.get(), m->pl.get(), m->rs->arr.get()); }, [=](wickr_encoder_result_t *r) { Bytes b = packet_bytes(r); OPX(b.size() && r->packet_key, "incomplete"); OPX(b.find("the body") == Bytes::npos, "not encrypted"); for (int i = 1; i < 3; i++) { Got g = read_packet(m->w.d[i].ctx.get(), b, m->w.d[0].pub.get(), m->w.d[i].keys[0]->ec_key); OPX(g.ok && same_payload(g.d->decrypted_payload, m->pl.get()) && same_key(g.d->payload_key, r->packet_key), "an addressed device cannot read it"); } }); });
        for (int how = 0; how < 3; how++) for (int bad = 0; bad < 3; bad++) add(v, std::string(how == 0 ? "parse" : how == 1 ? "parse-no-decode" : "parse-stateless") + vn + (bad == 0 ? "" : bad == 1 ? "-altered" : "-other-sender"), [=](ER e) {
            auto m = sp<Msg>(e, ver); Bytes b = m->bytes; if (bad == 1) b[b.size() / 2] ^= 1; auto x = sp<Exact>(b);
            return ret<OCtxPacket>([=]() -> wickr_ctx_packet_t * { CB p = *x; const wickr_identity_chain_t *s = bad == 2 ? m->w.d[2].pub.get() : m->w.d[0].pub.get(); const wickr_ctx_t *c = m->w.d[1].ctx.get(); return how == 0 ? wickr_ctx_parse_packet(c, p, s) : how == 1 ? wickr_ctx_parse_packet_no_decode(c, p, s) : wickr_ctx_stateless_parse_packet(&e, c->id_chain->node->identifier, p, s); }, [=](wickr_ctx_packet_t *p) { if (bad) { OPX(p->parse_result->signature_status != PACKET_SIGNATURE_VALID || p->parse_result->err != E_SUCCESS, "forged packet parsed"); MC_CHECK(p->parse_result->signature_status != PACKET_SIGNATURE_VALID, "unauthenticated", "a forged packet has a valid signature"); OPX(!p->parse_result->enc_payload, "forged packet hands out data"); return; } OPX(p->packet && p->sender && p->parse_result, "incomplete"); if (p->parse_result->err == E_SUCCESS) OPX(p->parse_result->enc_payload && p->parse_result->key_exchange_set && (how == 1 || p->parse_result->key_exchange) && p->parse_result->signature_status == PACKET_SIGNATURE_VALID, "incomplete parse"); }); }, -1);
        for (int bad = 0; bad < 3; bad++) add(v, "decode" + vn + (bad == 0 ? "" : bad == 1 ? "-wrong-key" : "-altered-payload"), [=](ER e) { struct S { Msg m; OCtxPacket p; S(ER e, int v) : m(e, v) {} }; auto s = sp<S>(e, ver); Exact x(s->m.bytes); s->p.reset(wickr_ctx_parse_packet(s->m.w.d[1].ctx.get(), x, s->m.w.d[0].pub.get())); if (bad == 2) s->p->parse_result->enc_payload->cipher_text->bytes[1] ^= 8; auto o = sp<ODecode>();
            return Inst{ [=] { o->reset(wickr_ctx_decode_packet(s->m.w.d[1].ctx.get(), s->p.get(), bad == 1 ? s->m.w.d[2].keys[0]->ec_key : s->m.w.d[1].keys[0]->ec_key)); }, [=]() -> int { if (!*o) return 0; if ((*o)->err != E_SUCCESS) { OPX(!(*o)->decrypted_payload && !(*o)->payload_key, "failed decode hands out data"); return 0; } MC_CHECK(!bad, "unauthenticated", "decoded with a wrong key or altered payload"); OPX(same_payload((*o)->decrypted_payload, s->m.pl.get()) && (*o)->payload_key, "payload"); return 1; }, [=] { o->reset(); }, true }; }, bad == 0);
        add(v, "exchange-wrap" + vn, [ver](ER e) { struct S { Msg m; Exact psk{ "a pre-shared secret key" }; OEc k; OKey p; S(ER e, int v) : m(e, v), k(e.wickr_crypto_engine_ec_rand_key(e.default_curve)), p(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)) {} }; auto s = sp<S>(e, ver); return ret<OKex>([=] { return wickr_key_exchange_create_with_packet_key(&e, s->m.w.d[0].ctx->id_chain, s->m.w.d[1].nodes[0].get(), s->k.get(), s->p.get(), s->psk, (uint8_t)ver); }, [=](wickr_key_exchange_t *x) { ONode n(wickr_node_copy(s->m.w.d[1].nodes[0].get())); wickr_node_rotate_keypair(n.get(), s->m.w.d[1].keys[0].get(), true); OKey k(wickr_key_exchange_derive_packet_key(&e, s->m.w.d[0].pub.get(), n.get(), s->k.get(), x, s->psk, (uint8_t)ver)); OPX(k && same_key(k.get(), s->p.get()), "does not open"); OPX(str(x->exchange_ciphertext->cipher_text).find(str(s->p->key_data)) == Bytes::npos, "not wrapped"); }); });
        add(v, "exchange-open" + vn, [ver](ER e) { struct S { Msg m; Exact psk{ "a pre-shared secret key" }; OEc k; OKey p; OKex x; ONode n; S(ER e, int v) : m(e, v), k(e.wickr_crypto_engine_ec_rand_key(e.default_curve)), p(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)) {} }; auto s = sp<S>(e, ver); s->x.reset(wickr_key_exchange_create_with_packet_key(&e, s->m.w.d[0].ctx->id_chain, s->m.w.d[1].nodes[0].get(), s->k.get(), s->p.get(), s->psk, (uint8_t)ver)); s->n.reset(wickr_node_copy(s->m.w.d[1].nodes[0].get())); wickr_node_rotate_keypair(s->n.get(), s->m.w.d[1].keys[0].get(), true); return ret<OKey>([=] { return wickr_key_exchange_derive_packet_key(&e, s->m.w.d[0].pub.get(), s->n.get(), s->k.get(), s->x.get(), s->psk, (uint8_t)ver); }, [=](wickr_cipher_key_t *k) { OPX(same_key(k, s->p.get()), "key"); }); }); }
    add(v, "encode-unverified", [](ER e) { auto m = sp<Msg>(e, 4); wickr_identity_destroy(&m->rs->own[1]->id_chain->root); m->rs->own[1]->id_chain->root = wickr_identity_copy(m->w.d[0].pub->root); return ret<OEnc>([=] { return wickr_ctx_encode_packet(m->w.d[0].ctx.get(), m->pl.get(), m->rs->arr.get()); }, [](wickr_encoder_result_t *) { MC_CHECK(false, "unauthenticated", "encrypted to a forged recipient"); }); }, 0);
    add(v, "payload-encrypt", [](ER e) { struct S { OPayload p{ mk_payload("body", "tag") }; OKey k; }; auto s = sp<S>(); s->k.reset(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); return ret<OCipher>([=] { return wickr_payload_encrypt(s->p.get(), &e, s->k.get()); }, [=](wickr_cipher_result_t *c) { OPayload q(wickr_payload_create_from_cipher(&e, c, s->k.get())); OPX(same_payload(q.get(), s->p.get()), "payload"); }); });
    add(v, "exchange-set-encrypt", [](ER e) { Maker m{ e, false }; m.use_fixed = true; struct S { OKexSet x; OKey k; }; auto s = sp<S>(); s->x.reset(m.kset()); s->k.reset(e.wickr_crypto_engine_cipher_key_random(CIPHER_AES256_GCM)); return ret<OCipher>([=] { return wickr_key_exchange_set_encrypt(s->x.get(), &e, s->k.get()); }, [=](wickr_cipher_result_t *c) { OKexSet q(wickr_key_exchange_set_create_from_cipher(&e, c, s->k.get())); OPX(q && dump(q.get(), true) == dump(s->x.get(), true), "set"); }); });
    typedef Own<wickr_ecdh_cipher_ctx_t, wickr_ecdh_cipher_ctx_destroy> OEcdh; struct EC { OEcdh a, b; OKdfMeta m; Exact t{ pat(33) }; OCipher c; };
    auto ecdh = [](ER e) { auto s = sp<EC>(); s->a.reset(wickr_ecdh_cipher_ctx_create(e, e.default_curve, CIPHER_AES256_GCM)); s->b.reset(wickr_ecdh_cipher_ctx_create(e, e.default_curve, CIPHER_AES256_GCM)); s->m.reset(wickr_kdf_meta_create(KDF_HKDF_SHA512, mk(pat(16)), mk("info"))); s->c.reset(wickr_ecdh_cipher_ctx_cipher(s->a.get(), s->t, s->b->local_key, s->m.get())); return s; };
    add(v, "ecdh-create", [](ER e) { return ret<OEcdh>([=] { return wickr_ecdh_cipher_ctx_create(e, e.default_curve, CIPHER_AES256_GCM); }, [](wickr_ecdh_cipher_ctx_t *c) { OPX(c->local_key && c->local_key->pri_data, "incomplete"); }); });
    add(v, "ecdh-cipher", [=](ER e) { auto s = ecdh(e); return ret<OCipher>([=] { return wickr_ecdh_cipher_ctx_cipher(s->a.get(), s->t, s->b->local_key, s->m.get()); }, [=](wickr_cipher_result_t *c) { OBuf d(wickr_ecdh_cipher_ctx_decipher(s->b.get(), c, s->a->local_key, s->m.get())); OPX(is(d.get(), pat(33)), "does not open"); }); });
    for (int bad = 0; bad < 2; bad++) add(v, bad ? "ecdh-decipher-other" : "ecdh-decipher", [=](ER e) { auto s = ecdh(e); return ret<OBuf>([=] { return wickr_ecdh_cipher_ctx_decipher(s->b.get(), s->c.get(), bad ? s->b->local_key : s->a->local_key, s->m.get()); }, [=](MB b) { MC_CHECK(!bad, "unauthenticated", "opened with another key"); OPX(is(b, pat(33)), "plaintext"); }); }, !bad);
    return v;
}
struct StreamScene { Sp<Pair> p; Bytes want; };
}
