#include "mut.hpp"
#include "obj.hpp"
#include "strm.hpp"
// C01: account state survives export and recovery, and only with the right secret
static wickr_crypto_engine_t E;
static const char *SYS[] = { "system one", "system two", "system 1" };
static ODev dev(int i) { OBuf s(mk(SYS[i])); OBuf salt(mk(pat(64, 100 + i))); wickr_buffer_t *x = salt.release(); return ODev(wickr_dev_info_derive(&E, x, s.get())); }
struct Ref { Bytes id, sig, sigpub, nodepri, local, remote, rec, nsr; };   // what must be found again
static Bytes kb(const wickr_cipher_key_t *k) { return k ? Bytes(1, (char)k->cipher.cipher_id) + str(k->key_data) : Bytes(); }
static void check_ctx(const wickr_ctx_t *c, const Ref &r, const Bytes &local, bool same_node, const std::string &h)
{
    MC_CHECK(is(c->id_chain->root->identifier, r.id), "identifier", "account identifier changed:%s", h.c_str()); MC_CHECK(is(c->id_chain->root->sig_key->pri_data, r.sig) && is(c->id_chain->root->sig_key->pub_data, r.sigpub), "signing-key", "account signing key changed:%s", h.c_str());
    MC_CHECK(kb(c->storage_keys->remote) == r.remote, "remote-key", "remote storage key changed:%s", h.c_str()); if (local.size()) MC_CHECK(kb(c->storage_keys->local) == local, "local-key", "local storage key changed:%s", h.c_str());
    OChain ch(wickr_identity_chain_copy(c->id_chain)); MC_CHECK(wickr_identity_chain_validate(ch.get(), &E), "chain", "identity chain invalid:%s", h.c_str()); if (same_node) MC_CHECK(is(c->id_chain->node->sig_key->pri_data, r.nodepri), "node-key", "device signing key changed:%s", h.c_str());
    OChain p(pub_chain(E, c->id_chain)); MC_CHECK(p, "chain", "cannot be published:%s", h.c_str()); MC_CHECK(wickr_identity_chain_validate(p.get(), &E), "chain", "published chain invalid:%s", h.c_str());
    World w(E); w.account("peer", 1, 1); Recips rs({ w.d[0].nodes[0].get() }); OPayload pl(mk_payload("body", "tag")); OEnc e(wickr_ctx_encode_packet(c, pl.get(), rs.arr.get())); MC_CHECK(e, "usable", "cannot send:%s", h.c_str()); Got g = read_packet(w.d[0].ctx.get(), packet_bytes(e.get()), p.get(), w.d[0].keys[0]->ec_key); MC_CHECK(g.ok, "usable", "what it sends is refused:%s", h.c_str());
}
static wickr_ctx_gen_result_t *make(int how, int d, const Bytes &user) { ODev di(dev(d)); OBuf u(mk(user)); if (how == 0) return wickr_ctx_gen_new(E, di.get(), u.get()); OEc k(E.wickr_crypto_engine_ec_rand_key(E.default_curve)); if (how == 1) return wickr_ctx_gen_new_with_sig_key(E, di.get(), k.get(), u.get()); ORoot r(wickr_root_keys_generate(&E)); return wickr_ctx_gen_with_root_keys(E, di.get(), r.get(), u.get()); }
// ---- all sequences of export, import, recovery on several devices
static void lives(int depth)
{
    std::string h; int how = mc::choose(3, "made"); OGen g(make(how, 0, "the user")); MC_CHECK(g, "make", "refused"); OGen other(make(0, 0, "the user")); static const char *pw[] = { "one", "one two" };
    Ref r{ "the user", str(g->root_keys->node_signature_root->pri_data), str(g->root_keys->node_signature_root->pub_data), str(g->ctx->id_chain->node->sig_key->pri_data), kb(g->ctx->storage_keys->local), kb(g->root_keys->remote_storage_root), kb(g->recovery_key), kb(g->root_keys->node_storage_root) };
    std::map<int, Bytes> local; local[0] = r.local; int d = 0; bool same_node = true, gen_live = true; OCtx c(wickr_ctx_copy(g->ctx)); check_ctx(c.get(), r, r.local, true, " at first"); MC_CHECK(r.local != r.remote && r.remote != r.rec && r.local != r.rec && r.nsr != r.remote && r.nsr != r.rec && r.local != r.nsr, "distinct", "two of the account's keys are equal");
    MC_CHECK(kb(other->ctx->storage_keys->local) != r.local && kb(other->root_keys->remote_storage_root) != r.remote, "distinct", "two accounts share storage keys");
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(7, "operation"); if (!op) break; mc::step();
        if (op == 1) { h += " copy"; c.reset(wickr_ctx_copy(c.get())); g.reset(wickr_ctx_gen_result_copy(g.get())); MC_CHECK(g, "copy", "lost:%s", h.c_str()); }
        if (op == 2) { h += " reload"; OBuf b(wickr_ctx_serialize(c.get())); MC_CHECK(b, "serialise", "refused:%s", h.c_str()); wickr_dev_info_t *di = dev(d).release(); c.reset(wickr_ctx_create_from_buffer(E, di, b.get())); }
        if (op == 3) { int p = mc::choose(2, "passphrase"); h += std::string(" export-import(") + pw[p] + ")"; Exact a(pw[p]), b(pw[1 - p]); OBuf x(wickr_ctx_export(c.get(), a)); MC_CHECK(x, "export", "refused:%s", h.c_str()); ODev di(dev(d)); { OCtx bad(wickr_ctx_import(E, di.get(), x.get(), b)); MC_CHECK(!bad, "wrong-secret", "imported with another passphrase:%s", h.c_str()); } c.reset(wickr_ctx_import(E, di.get(), x.get(), a)); if (c) di.release(); }
        if (op == 4) { int p = mc::choose(2, "passphrase"); h += std::string(" storage(") + pw[p] + ")"; Exact a(pw[p]), b(pw[1 - p]); OBuf x(wickr_ctx_export_storage_keys(c.get(), a)); MC_CHECK(x, "export", "storage keys refused:%s", h.c_str()); { OStor bad(wickr_ctx_import_storage_keys(E, x.get(), b)); MC_CHECK(!bad, "wrong-secret", "storage keys imported with another passphrase:%s", h.c_str()); } OStor s(wickr_ctx_import_storage_keys(E, x.get(), a)); MC_CHECK(s && kb(s->local) == local[d] && kb(s->remote) == r.remote, "storage-import", "differs:%s", h.c_str()); wickr_storage_keys_destroy(&c->storage_keys); c->storage_keys = s.release(); }
        if (op == 5 || op == 6) {
            int to = mc::choose(3, "device"); h += std::string(op == 5 ? " recover@" : " recover-by-passphrase@") + SYS[to]; OBuf data(wickr_ctx_gen_result_make_recovery(g.get())); MC_CHECK(data, "recovery", "cannot be made:%s", h.c_str()); ODev di(dev(to)); OBuf u(mk("the user")); wickr_ctx_gen_result_t *n = nullptr;
            if (op == 5) { if (other) { ORoot bad(wickr_ctx_gen_import_recovery(E, data.get(), other->recovery_key)); MC_CHECK(!bad, "wrong-secret", "recovered with another account's key:%s", h.c_str()); } n = wickr_ctx_gen_with_recovery(E, di.get(), data.get(), g->recovery_key, u.get()); }
            else { int p = mc::choose(2, "passphrase"); h += std::string("(") + pw[p] + ")"; OBuf a(mk(pw[p])), b(mk(pw[1 - p])); OBuf k(wickr_ctx_gen_export_recovery_key_passphrase(g.get(), a.get())); MC_CHECK(k, "recovery-key", "cannot be exported:%s", h.c_str()); OGen bad(wickr_ctx_gen_with_passphrase(E, di.get(), k.get(), b.get(), data.get(), u.get())); MC_CHECK(!bad, "wrong-secret", "recovered with another passphrase:%s", h.c_str()); { OKey rk(wickr_ctx_gen_import_recovery_key_passphrase(E, k.get(), a.get())); MC_CHECK(rk && kb(rk.get()) == kb(g->recovery_key), "recovery-key", "differs:%s", h.c_str()); OKey nk(wickr_ctx_gen_import_recovery_key_passphrase(E, k.get(), b.get())); MC_CHECK(!nk, "wrong-secret", "recovery key imported with another passphrase:%s", h.c_str()); } n = wickr_ctx_gen_with_passphrase(E, di.get(), k.get(), a.get(), data.get(), u.get()); }
            MC_CHECK(n, "recovery", "refused:%s", h.c_str()); g.reset(n); c.reset(wickr_ctx_copy(g->ctx)); d = to; same_node = false;
            Bytes l = kb(c->storage_keys->local); if (local.count(d)) MC_CHECK(local[d] == l, "local-key", "recovering on the same device gives another local key:%s", h.c_str()); local[d] = l; for (auto &a : local) for (auto &b : local) MC_CHECK(a.first == b.first || a.second != b.second, "local-key", "two devices share a local key:%s", h.c_str());
        }
        MC_CHECK(c, "lost", "the account is lost:%s", h.c_str()); check_ctx(c.get(), r, local[d], same_node, h); MC_CHECK(kb(g->recovery_key) == r.rec, "recovery-key", "changed:%s", h.c_str()); MC_CHECK(kb(g->root_keys->node_storage_root) == r.nsr && is(g->root_keys->node_signature_root->pri_data, r.sig) && kb(g->root_keys->remote_storage_root) == r.remote, "root-keys", "changed:%s", h.c_str());
        MC_CHECK(is(c->dev_info->msg_proto_id, str(dev(d)->msg_proto_id)), "device", "belongs to another device:%s", h.c_str()); (void)gen_live; mc::state(mc::Hash().s(h).u(how).h); mc::nontrivial(mc::Hash().s(h).u(how).h); static const char *on[] = { "", "copy", "reload", "export", "storage", "recover", "recover-by-passphrase" }; mc::outcome(on[op]);
    }
}
// ---- all pairs of secrets
static std::vector<Bytes> secrets()
{
    std::vector<Bytes> v = { "a", "b", "ab", "ba", "A", "aa", "aaa", " a", "a ", "a\n", Bytes("\0a", 2), Bytes("a\0b", 3), Bytes("a\0c", 3), "\xc3\xa9", "e\xcc\x81", Bytes(1, 1), Bytes(1, (char)0xff) };
    for (int n : { 15, 16, 17, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 1000 }) { v.push_back(Bytes(n, 'a')); v.push_back(Bytes(n - 1, 'a') + "b"); } return v;
}
static Bytes blob(int what, const wickr_ctx_gen_result_t *g, CB p) { MB o = what == 0 ? wickr_ctx_export(g->ctx, p) : what == 1 ? wickr_ctx_export_storage_keys(g->ctx, p) : what == 2 ? wickr_ctx_gen_export_recovery_key_passphrase(g, p) : wickr_ctx_gen_result_make_recovery(g); return take(o); }
static bool open_blob(int what, const wickr_ctx_gen_result_t *g, const Bytes &b, CB p, bool check)
{
    Exact x(b); bool ok = false; if (what == 0) { ODev di(dev(0)); OCtx c(wickr_ctx_import(E, di.get(), x, p)); if (c) di.release(); ok = (bool)c; if (ok && check) { OBuf s1(wickr_ctx_serialize(c.get())), s2(wickr_ctx_serialize(g->ctx)); MC_CHECK(same(s1.get(), s2.get()), "export", "imported account differs"); } }
    if (what == 1) { OStor s(wickr_ctx_import_storage_keys(E, x, p)); ok = (bool)s; if (ok && check) MC_CHECK(dump(s.get()) == dump(g->ctx->storage_keys), "storage", "imported keys differ"); }
    if (what == 2) { OKey k(wickr_ctx_gen_import_recovery_key_passphrase(E, x, p)); ok = (bool)k; if (ok && check) MC_CHECK(dump(k.get()) == dump(g->recovery_key), "recovery-key", "imported key differs"); }
    if (what == 3) { ORoot k(wickr_ctx_gen_import_recovery(E, x, g->recovery_key)); ok = (bool)k; if (ok && check) MC_CHECK(dump(k.get()) == dump(g->root_keys), "recovery", "imported keys differ"); }
    return ok;
}
static std::unique_ptr<OGen> G[2]; static std::map<Bytes, Bytes> blobs;
static bool toy() { return E.wickr_crypto_engine_cipher_encrypt != wickr_crypto_engine_get_default().wickr_crypto_engine_cipher_encrypt; }
static OGen &acc() { auto &p = G[toy()]; if (!p) p.reset(new OGen(make(0, 0, "someone"))); return *p; }
static void pairs()
{
    static std::vector<Bytes> s = secrets(); int what = mc::choose(3, "export"), i = mc::choose((int)s.size(), "export secret"); Exact p(s[i]); Bytes b = blob(what, acc().get(), p); MC_CHECK(b.size(), "export", "refused for a passphrase of %zu bytes", s[i].size());
    for (size_t j = 0; j < s.size(); j++) { Exact q(s[j]); bool ok = open_blob(what, acc().get(), b, q, true); mc::step(); mc::state(mc::Hash().u(what).u(i).u(j).h); mc::nontrivial(mc::Hash().u(what).u(i).u(j).h); MC_CHECK(ok == (s[i] == s[j]), "secret", "exported with %s, import with %s %s", hex(s[i]).c_str(), hex(s[j]).c_str(), ok ? "succeeds" : "fails"); mc::outcome(ok ? "right" : "wrong-refused"); }
}
static void altered()
{
    int what = mc::choose(4, "export"); static std::map<int, std::pair<Bytes, mut::V>> cache; auto &cc = cache[what + 4 * toy()]; Exact p("pass phrase"); if (cc.first.empty()) { cc.first = blob(what, acc().get(), p); mut::flips(cc.first, cc.second); mut::cuts(cc.first, cc.second); mut::subs(cc.first, cc.second, mc::thorough() && toy()); cc.second.push_back(cc.first); }
    int i = mc::choose((int)cc.second.size(), "alteration"); const Bytes &b = cc.second[i]; bool ok = open_blob(what, acc().get(), b, p, true); mc::step(); mc::state(mc::Hash().u(what).s(b).h); mc::nontrivial(mc::Hash().u(what).s(b).h);
    MC_CHECK(ok == (b == cc.first), "altered", "an altered export (kind %d) %s: %s", what, ok ? "is accepted" : "- the unaltered one - is refused", hex(b, 400).c_str()); mc::outcome(ok ? "unaltered" : "altered-refused");
}
// ---- spliced: the passphrase header of one export with the body of another, and exports of one kind opened as another
static void spliced()
{
    static std::vector<Bytes> v; static std::vector<int> kind; static bool was; if (v.empty() || was != toy()) { v.clear(); kind.clear(); was = toy(); for (int w = 0; w < 3; w++) for (const char *p : { "one", "two" }) { Exact x(p); v.push_back(blob(w, acc().get(), x)); kind.push_back(w); } v.push_back(blob(3, acc().get(), nullptr)); kind.push_back(3); }
    int a = mc::choose((int)v.size()), b = mc::choose((int)v.size()), cut = mc::choose(64), as = mc::choose(4), p = mc::choose(2); if (a == b && cut) mc::prune(); Bytes s = a == b ? v[a] : v[a].substr(0, cut) + (v[b].size() > (size_t)cut ? v[b].substr(cut) : Bytes()); Exact pw(p ? "two" : "one"); bool ok = open_blob(as, acc().get(), s, pw, false); mc::step(); mc::state(mc::Hash().s(s).u(as).u(p).h); mc::nontrivial(mc::Hash().s(s).u(as).u(p).h);
    bool whole = false; for (size_t i = 0; i < v.size(); i++) if (s == v[i] && kind[i] == as && (as == 3 || (int)(i & 1) == p)) whole = true; MC_CHECK(ok == whole, "spliced", "export %d/%d cut at %d opened as %d with passphrase %d: %s", a, b, cut, as, p, ok ? "accepted" : "refused"); mc::outcome(ok ? "whole" : "splice-refused");
}
// ---- long secrets and device names that differ in one byte at every place, or by one byte more
static std::vector<size_t> places(size_t n) { std::vector<size_t> v; for (size_t p : { (size_t)0, (size_t)7, (size_t)15, (size_t)16, (size_t)31, (size_t)32, (size_t)55, (size_t)56, (size_t)63, (size_t)64, (size_t)71, (size_t)72, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)511, (size_t)512, (size_t)1023, (size_t)1024, (size_t)2047, (size_t)2048, (size_t)4095, (size_t)4096, (size_t)32767, (size_t)32768, (size_t)65535, (size_t)65536, n / 2, n - 2, n - 1 }) if (p < n) v.push_back(p); return v; }
static void near_secrets()
{
    size_t n = mc::pick(std::vector<size_t>{ 2, 16, 33, 64, 65, 72, 73, 128, 129, 256, 257, 512, 513, 1024, 1025, 2048, 2049, 4096, 4097, 20000, 65536, 65537, 200000 }, "length"); int what = mc::choose(4, "use"); Bytes s = pat(n, 3); for (auto &ch : s) if (!ch) ch = 'q'; if (s.back() == 'z') s.back() = 'y'; Exact p(s); Bytes b; ODev d0; if (what < 3) { b = blob(what, acc().get(), p); MC_CHECK(b.size() && open_blob(what, acc().get(), b, p, true), "secret", "an export under a passphrase of %zu bytes cannot be opened", n); } else { Exact e(s); d0.reset(wickr_dev_info_derive(&E, mk(pat(64, 1)), e)); MC_CHECK(d0, "device", "refused"); }
    std::vector<Bytes> other; for (size_t i : places(n)) { Bytes t = s; t[i] ^= 0x11; if (!t[i]) t[i] = 'w'; if (t != s) other.push_back(t); } other.push_back(s + "z"); for (size_t i : places(n)) if (i) other.push_back(s.substr(0, i));
    for (auto &o : other) { Exact q(o); mc::step(); mc::state(mc::Hash().u(what).u(n).s(o).h); mc::nontrivial(mc::Hash().u(what).u(n).s(o).h); if (what < 3) { MC_CHECK(!open_blob(what, acc().get(), b, q, false), "secret", "export %d under %zu bytes opens with %zu other bytes", what, n, o.size()); mc::outcome("wrong-refused"); } else { ODev d(wickr_dev_info_derive(&E, mk(pat(64, 1)), q)); MC_CHECK(d && !same(d->msg_proto_id, d0->msg_proto_id) && !same(d->system_salt, d0->system_salt) && !same(d->srv_comm_id, d0->srv_comm_id), "device", "systems of %zu and %zu different bytes are the same device", n, o.size()); mc::outcome("other"); } }
}
// ---- exports rewritten to an unauthenticated cipher: what they contain is the same, but anybody could alter it
static void downgrade()
{
    int what = mc::choose(4, "export"), bit = mc::choose(3, "alteration"); Exact p("pass phrase"); Bytes b = blob(what, acc().get(), p), head; if (what < 3) { Exact x(b); uint8_t n = wickr_kdf_meta_size_with_buffer(x); MC_CHECK(n && n < b.size(), "export", "no header"); head = b.substr(0, n); } Exact body(b.substr(head.size())); OCipher g(wickr_cipher_result_from_buffer(body)); MC_CHECK(g, "export", "not a ciphertext"); OCipher dn = downgraded(g.get());
    if (what == 3) { OKey k = downgraded(acc()->recovery_key); OBuf plain(E.wickr_crypto_engine_cipher_decrypt(dn.get(), nullptr, k.get(), false)); MC_CHECK(plain, "machinery", "the rewritten form does not decrypt"); if (bit) dn->cipher_text->bytes[bit == 1 ? 3 : dn->cipher_text->length - 1] ^= 1; OBuf s(wickr_cipher_result_serialize(dn.get())); ORoot r(wickr_ctx_gen_import_recovery(E, s.get(), k.get())); ODev d(dev(0)); OBuf u(mk("someone")); OGen n(wickr_ctx_gen_with_recovery(E, d.get(), s.get(), k.get(), u.get())); MC_CHECK(!r && !n, "unauthenticated", "recovery data under an unauthenticated cipher are accepted"); }
    else { if (bit) dn->cipher_text->bytes[bit == 1 ? 3 : dn->cipher_text->length - 1] ^= 1; Bytes s = head + take(wickr_cipher_result_serialize(dn.get())); bool ok = open_blob(what, acc().get(), s, p, false); MC_CHECK(!ok, "unauthenticated", "export (kind %d) rewritten to an unauthenticated cipher is accepted", what); }
    mc::step(); mc::state(mc::Hash().u(what).u(bit).h); mc::nontrivial(mc::Hash().u(what).u(bit).h); mc::outcome("downgrade-refused");
}
// ---- the device information: same system and salt, same device; anything else, another device
static void devices()
{
    static std::vector<Bytes> ids = { "s", "t", "st", "system one", "system two", Bytes(32, 1), Bytes(64, 1), Bytes(65, 1), Bytes("s\0", 2), Bytes(1000, 'x') }, salts = { pat(64, 1), pat(64, 2), pat(32, 1), pat(1, 1), Bytes(64, 0) }; int n = (int)ids.size(), m = (int)salts.size(); int i = mc::choose(n), j = mc::choose(m), k = mc::choose(n), l = mc::choose(m);
    Exact a(ids[i]), b(ids[k]); ODev x(wickr_dev_info_derive(&E, mk(salts[j]), a)), y(wickr_dev_info_derive(&E, mk(salts[l]), b)); MC_CHECK(x && y, "device", "cannot be derived"); mc::step(); mc::state(mc::Hash().u(i).u(j).u(k).u(l).h); mc::nontrivial(mc::Hash().u(i).u(j).u(k).u(l).h);
    bool eq = i == k && j == l; MC_CHECK(same(x->msg_proto_id, y->msg_proto_id) == eq && same(x->srv_comm_id, y->srv_comm_id) == eq && same(x->system_salt, y->system_salt) == (i == k), "device", "system %d salt %d against system %d salt %d", i, j, k, l); MC_CHECK(!same(x->msg_proto_id, x->srv_comm_id), "device", "both identifiers equal");
    ORoot r(wickr_root_keys_generate(&E)); OStor s(wickr_root_keys_localize(r.get(), &E, x.get())), t(wickr_root_keys_localize(r.get(), &E, y.get())); MC_CHECK(s && t, "localize", "refused"); MC_CHECK((kb(s->local) == kb(t->local)) == (i == k) && kb(s->remote) == kb(t->remote) && kb(s->remote) == kb(r->remote_storage_root) && kb(s->local) != kb(r->node_storage_root), "localize", "system %d against %d", i, k); mc::outcome(eq ? "same" : i == k ? "same-system" : "other");
}
int main(int c, char **v)
{
    mc::init("C01", "model_checking", "all sequences of copy, reload, export/import, storage export and recovery on three devices up to a depth, against a reference of what must be preserved; all pairs of secrets; every bit, truncation, extension and splice of every kind of export", c, v);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("the passphrase function is replaced by a fast stand-in except in the part real-kdf"); mc::assume("passphrases that differ only by trailing zero bytes, or a passphrase longer than 64 bytes and its SHA-256 digest, are equivalent by construction of PBKDF2 and are not distinguished");
    E = toy_engine(); mc::PartOpts o; o.require = { "copy", "reload", "export", "storage", "recover", "recover-by-passphrase" }; mc::part("lives", [] { lives(mc::tier(3, 5)); }, o);
    mc::PartOpts o2; o2.require = { "right", "wrong-refused" }; mc::part("pairs", pairs, o2); mc::PartOpts o3; o3.require = { "unaltered", "altered-refused" }; mc::part("altered", altered, o3); { mc::PartOpts on; on.require = { "wrong-refused", "other" }; mc::part("near", near_secrets, on); } mc::PartOpts o4; o4.require = { "whole", "splice-refused" }; mc::part("spliced", spliced, o4); mc::PartOpts o5; o5.require = { "same", "same-system", "other" }; mc::part("devices", devices, o5);
    E = real_engine(); acc(); mc::part("lives-real", [] { lives(mc::tier(2, 3)); }, o); mc::part("pairs-real", pairs, o2); mc::part("altered-real", altered, o3); { mc::PartOpts on; on.require = { "wrong-refused", "other" }; mc::part("near-real", near_secrets, on); } mc::part("spliced-real", spliced, o4); { mc::PartOpts o6; o6.require = { "downgrade-refused" }; mc::part("downgrade", downgrade, o6); } mc::part("devices-real", devices, o5);
    kdf_real = 1; mc::part("real-kdf", [] { static const char *p[] = { "a", "b", "ab" }; int i = mc::choose(3), j = mc::choose(3), w = mc::choose(mc::tier(1, 3)); Exact a(p[i]), b(p[j]); Bytes x = blob(w, acc().get(), a); MC_CHECK(open_blob(w, acc().get(), x, b, true) == (i == j), "real-kdf", "%d %d", i, j); mc::step(2); mc::outcome(i == j ? "right" : "wrong-refused"); mc::nontrivial(mc::Hash().u(i).u(j).u(w).h); }, o2); kdf_real = 0;
    return mc::finish();
}
