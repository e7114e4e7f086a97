// I01: verification verdicts always reflect the current contents, never a stale cache
#include "w.hpp"

struct Mat {    // the keys and signatures the edits choose from
    wickr_crypto_engine_t e; uint64_t ident = 7; OEc r[2], n[2], k[2]; std::vector<OSig> ns, es; OBuf rid, nid, dev;
    static wickr_ecdsa_result_t *relabel(const wickr_ecdsa_result_t *s) { wickr_ecdsa_result_t *c = wickr_ecdsa_result_copy(s); c->digest_mode = DIGEST_SHA_256; return c; }
    static wickr_ecdsa_result_t *corrupt(const wickr_ecdsa_result_t *s) { wickr_ecdsa_result_t *c = wickr_ecdsa_result_copy(s); c->sig_data->bytes[9] ^= 1; return c; }
    explicit Mat(const wickr_crypto_engine_t &eng) : e(eng)
    {
        for (int i = 0; i < 2; i++) { r[i].reset(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); n[i].reset(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); k[i].reset(e.wickr_crypto_engine_ec_rand_key(e.default_curve)); }
        auto sign = [&](OEc &by, OEc &over) { return e.wickr_crypto_engine_ec_sign(by.get(), over->pub_data, wickr_digest_matching_curve(e.default_curve)); };
        ns.emplace_back(sign(r[0], n[0])); ns.emplace_back(sign(r[0], n[1])); ns.emplace_back(sign(r[1], n[0])); ns.emplace_back(relabel(ns[0].get())); ns.emplace_back(corrupt(ns[0].get())); ns.emplace_back(nullptr);
        es.emplace_back(sign(n[0], k[0])); es.emplace_back(sign(n[0], k[1])); es.emplace_back(sign(n[1], k[0])); es.emplace_back(relabel(es[0].get())); es.emplace_back(corrupt(es[0].get())); es.emplace_back(nullptr);
        rid.reset(mk("user")); nid.reset(mk(Bytes(32, 'n'))); dev.reset(mk(Bytes(32, 'd')));
    }
    wickr_identity_chain_t *chain(int root, int node, int sig) { return wickr_identity_chain_create(wickr_identity_create(IDENTITY_TYPE_ROOT, wickr_buffer_copy(rid.get()), wickr_ec_key_copy(r[root].get()), nullptr), wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(nid.get()), wickr_ec_key_copy(n[node].get()), wickr_ecdsa_result_copy(ns[sig].get()))); }
    wickr_ephemeral_keypair_t *eph(int key, int sig) { return wickr_ephemeral_keypair_create(ident, wickr_ec_key_copy(k[key].get()), wickr_ecdsa_result_copy(es[sig].get())); }
};
static std::unique_ptr<Mat> toy, real; static uint64_t IDENT[] = { 7, 0, UINT64_MAX, (uint64_t)1 << 32 };

static bool fresh_chain(const Mat &m, const wickr_identity_chain_t *c) { return m.e.wickr_crypto_engine_ec_verify(c->node->signature, c->root->sig_key, c->node->sig_key->pub_data); }
static bool fresh_node(const Mat &m, const wickr_node_t *n) { return fresh_chain(m, n->id_chain) && n->ephemeral_keypair && m.e.wickr_crypto_engine_ec_verify(n->ephemeral_keypair->signature, n->id_chain->node->sig_key, n->ephemeral_keypair->ec_key->pub_data); }

static void h_sig(mc::Hash &h, const wickr_ecdsa_result_t *s) { if (s) h.s(str(s->sig_data)).u(s->digest_mode.digest_id).u(s->curve.identifier); else h.u(0); }
static uint64_t hash(const wickr_node_t *n, int left)
{
    mc::Hash h; h.u(left); h.s(str(n->id_chain->root->sig_key->pub_data)).s(str(n->id_chain->node->sig_key->pub_data)); h_sig(h, n->id_chain->node->signature); h.u(n->id_chain->status).s(str(n->id_chain->_status_cache)).u(n->status).s(str(n->_status_cache));
    if (n->ephemeral_keypair) { h.s(str(n->ephemeral_keypair->ec_key->pub_data)).u(n->ephemeral_keypair->identifier); h_sig(h, n->ephemeral_keypair->signature); } return h.h;
}
static void validate_chain(Mat &m, wickr_node_t *n, const char *when)
{
    bool want = fresh_chain(m, n->id_chain), got = wickr_identity_chain_validate(n->id_chain, &m.e); mc::outcome(want ? "chain-valid" : "chain-invalid");
    MC_CHECK(got == want, "stale-chain-verdict", "%s: the chain is reported %s, a fresh evaluation says %s", when, got ? "valid" : "invalid", want ? "valid" : "invalid");
    MC_CHECK((n->id_chain->status == IDENTITY_CHAIN_STATUS_VALID) == want, "stale-chain-status", "%s: the chain's status field is %d after a verdict of %d", when, n->id_chain->status, got);
}
static void validate_node(Mat &m, wickr_node_t *n, const char *when)
{
    bool want = fresh_node(m, n), got = wickr_node_verify_signature_chain(n, &m.e); mc::outcome(want ? "node-valid" : "node-invalid");
    MC_CHECK(got == want, "stale-node-verdict", "%s: the device is reported %s, a fresh evaluation says %s", when, got ? "valid" : "invalid", want ? "valid" : "invalid");
    MC_CHECK((n->status == NODE_STATUS_VALID) == want, "stale-node-status", "%s: the device's status field is %d after a verdict of %d", when, n->status, got);
}
static const char *OPS[] = { "validate-chain", "validate-node", "root-key", "node-key", "node-sig", "eph-key", "eph-sig", "new-chain", "rotate", "copy", "reload", "chain-copy", "status-field", "corrupt-in-place" };
enum { O_VC, O_VN, O_RK, O_NK, O_NS, O_EK, O_ES, O_CH, O_ROT, O_COPY, O_REL, O_CCOPY, O_STAT, O_FLIP, O_N };

static void step(Mat &m, ONode &n, bool small)
{
    int op = mc::choose(O_N, "op"); mc::step(); mc::note("%s", OPS[op]);
    int sigs = small ? 4 : 6;
    switch (op) {
    case O_VC: validate_chain(m, n.get(), "in history"); break;
    case O_VN: validate_node(m, n.get(), "in history"); break;
    case O_RK: { int i = mc::choose(2, "root"); wickr_ec_key_destroy(&n->id_chain->root->sig_key); n->id_chain->root->sig_key = wickr_ec_key_copy(m.r[i].get()); break; }
    case O_NK: { int i = mc::choose(2, "node"); wickr_ec_key_destroy(&n->id_chain->node->sig_key); n->id_chain->node->sig_key = wickr_ec_key_copy(m.n[i].get()); break; }
    case O_NS: { int i = mc::choose(sigs, "sig"); wickr_ecdsa_result_destroy(&n->id_chain->node->signature); n->id_chain->node->signature = wickr_ecdsa_result_copy(m.ns[i].get()); break; }
    case O_EK: { int i = mc::choose(2, "eph"); if (!n->ephemeral_keypair) mc::prune(); wickr_ec_key_destroy(&n->ephemeral_keypair->ec_key); n->ephemeral_keypair->ec_key = wickr_ec_key_copy(m.k[i].get()); break; }
    case O_ES: { int i = mc::choose(sigs, "sig"); if (!n->ephemeral_keypair) mc::prune(); wickr_ecdsa_result_destroy(&n->ephemeral_keypair->signature); n->ephemeral_keypair->signature = wickr_ecdsa_result_copy(m.es[i].get()); break; }
    case O_CH: { int i = mc::choose(3, "chain"); wickr_identity_chain_t *c = i == 0 ? m.chain(0, 0, 0) : i == 1 ? m.chain(0, 1, 1) : m.chain(1, 0, 0); if (mc::flip("validated")) wickr_identity_chain_validate(c, &m.e); wickr_identity_chain_destroy(&n->id_chain); n->id_chain = c; break; }
    case O_ROT: { int k = mc::choose(3, "key"); bool copy; if (k == 2) { copy = mc::flip("copy"); if (!n->ephemeral_keypair) mc::prune(); Bytes was = str(n->ephemeral_keypair->ec_key->pub_data); MC_CHECK(wickr_node_rotate_keypair(n.get(), n->ephemeral_keypair, copy) && str(n->ephemeral_keypair->ec_key->pub_data) == was, "rotate", "rotation to the current key pair"); break; }
        int s = mc::choose(small ? 2 : 3, "sig"); copy = mc::flip("copy"); wickr_ephemeral_keypair_t *e = m.eph(k, s); bool ok = wickr_node_rotate_keypair(n.get(), e, copy); if (copy || !ok) wickr_ephemeral_keypair_destroy(&e); MC_CHECK(ok, "rotate", "rotation refused"); break; }
    case O_COPY: { ONode c(wickr_node_copy(n.get())); MC_CHECK(c, "copy", "device not copied"); n = std::move(c); break; }
    case O_REL: { OBuf b(wickr_node_serialize(n.get())); if (!b) { mc::outcome("not-serialisable"); mc::prune(); } ONode c(wickr_node_create_from_buffer(b.get(), &m.e)); if (!c) { mc::outcome("not-readable"); mc::prune(); } n = std::move(c); break; }
    case O_CCOPY: { wickr_identity_chain_t *c = wickr_identity_chain_copy(n->id_chain); MC_CHECK(c, "copy", "chain not copied"); wickr_identity_chain_destroy(&n->id_chain); n->id_chain = c; break; }
    case O_STAT: { int v = mc::choose(4, "value"); if (v < 2) n->id_chain->status = v ? IDENTITY_CHAIN_STATUS_VALID : IDENTITY_CHAIN_STATUS_INVALID; else n->status = v == 3 ? NODE_STATUS_VALID : NODE_STATUS_INVALID; break; }
    case O_FLIP: { int w = mc::choose(2, "which"); wickr_ecdsa_result_t *s = w ? (n->ephemeral_keypair ? n->ephemeral_keypair->signature : nullptr) : n->id_chain->node->signature; if (!s) mc::prune(); s->sig_data->bytes[12] ^= 4; break; }
    }
}
static void history(Mat &m, int depth, bool small, int ids = 1)
{
    m.ident = IDENT[mc::choose(ids, "identifier")];
    ONode n(wickr_node_create(wickr_buffer_copy(m.dev.get()), m.chain(0, 0, 0), m.eph(0, 0)));
    for (int left = depth; left > 0; left--) { step(m, n, small); uint64_t h = hash(n.get(), 0); mc::state(h); if (mc::seen(mc::Hash().u(h).u(left).h)) mc::prune(); }
    // both orders of a final verdict, on the object and on a copy and a reloaded one
    { ONode c(wickr_node_copy(n.get())); validate_chain(m, c.get(), "at the end, copy"); validate_node(m, c.get(), "at the end, copy"); validate_node(m, c.get(), "again, copy"); }
    validate_node(m, n.get(), "at the end"); validate_chain(m, n.get(), "at the end"); validate_chain(m, n.get(), "again"); validate_node(m, n.get(), "again");
}
// ---- every relation between the three keys and the keys that signed and are signed -------------------------
static void relations(Mat &m, int nk, bool priv)
{
    static std::vector<OEc> K; static std::map<int, OSig> S; static const Mat *made; if (made != &m) { K.clear(); S.clear(); made = &m; for (int i = 0; i < nk; i++) K.emplace_back(m.e.wickr_crypto_engine_ec_rand_key(m.e.default_curve)); for (int i = 0; i < nk; i++) for (int j = 0; j < nk; j++) S[i * nk + j].reset(m.e.wickr_crypto_engine_ec_sign(K[i].get(), K[j]->pub_data, wickr_digest_matching_curve(m.e.default_curve))); }
    int r = mc::choose(nk, "root key"), n = mc::choose(nk, "device key"), k = mc::choose(nk, "one-time key"), a = mc::choose(nk * nk + 1, "signature of the device key"), b = mc::choose(nk * nk + 1, "signature of the one-time key"); int held = priv ? mc::choose(8, "private parts held") : 0;
    auto key = [&](int i, bool p) { return p ? wickr_ec_key_copy(K[i].get()) : m.e.wickr_crypto_engine_ec_key_import(K[i]->pub_data, false); }; auto sig = [&](int i) { return i == nk * nk ? nullptr : wickr_ecdsa_result_copy(S[i].get()); };
    wickr_identity_chain_t *c = wickr_identity_chain_create(wickr_identity_create(IDENTITY_TYPE_ROOT, wickr_buffer_copy(m.rid.get()), key(r, held & 1), nullptr), wickr_identity_create(IDENTITY_TYPE_NODE, wickr_buffer_copy(m.nid.get()), key(n, held & 2), sig(a))); wickr_ephemeral_keypair_t *e = wickr_ephemeral_keypair_create(7, key(k, held & 4), sig(b)); ONode d(wickr_node_create(wickr_buffer_copy(m.dev.get()), c, e)); MC_CHECK(d, "make", "device");
    // by what was signed and by whom, not by asking the primitive
    bool cv = a == r * nk + n, nv = cv && b == n * nk + k; mc::note("root %d, device %d signed %d by %d, one-time %d signed %d by %d", r, n, a % nk, a / nk, k, b % nk, b / nk); mc::step();
    bool first = mc::flip("chain first"); bool gc = first && wickr_identity_chain_validate(d->id_chain, &m.e); bool gn = wickr_node_verify_signature_chain(d.get(), &m.e); if (!first) gc = wickr_identity_chain_validate(d->id_chain, &m.e); mc::outcome(nv ? "node-valid" : cv ? "chain-valid" : "invalid");
    MC_CHECK(gc == cv, "chain-of-others", "a device key %s signed by the root key is %s", cv ? "" : "not", gc ? "accepted" : "refused"); MC_CHECK(gn == nv, "device-of-others", "a device %s vouched for is %s", nv ? "" : "not", gn ? "accepted" : "refused"); bool own = wickr_ephemeral_keypair_verify_owner(d->ephemeral_keypair, &m.e, d->id_chain->node); MC_CHECK(own == (b == n * nk + k), "owner", "a one-time key is %s", own ? "accepted" : "refused");
    mc::state(mc::Hash().u(r).u(n).u(k).u(a).u(b).u(held).u(first).h);
}
int main(int argc, char **argv)
{
    mc::init("I01", "model_checking", "every sequence of verdicts, edits of each key and signature, rotations, copies and reloads up to the depth, explored over the reachable states of the real objects (contents, status fields and cached values)", argc, argv);
    rng_install(); rng_seed(mc::seed()); toy.reset(new Mat(toy_engine())); real.reset(new Mat(real_engine()));
    mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("the exhaustive histories use an ideal stand-in for signatures; shorter ones are repeated with OpenSSL");
    mc::part("histories", [&] { history(*toy, mc::tier(4, 6), false); });
    // the identifier of a one-time key has no bearing on whether it is vouched for
    mc::part("histories-identifiers", [&] { history(*toy, mc::tier(2, 4), true, 4); });
    mc::part("histories-real", [&] { history(*real, mc::tier(3, 4), true); });
    // the sequence validate, edit, validate, edit, ... with verdicts after every edit
    mc::part("alternating", [&] {
        Mat &m = *toy; m.ident = 7; ONode n(wickr_node_create(wickr_buffer_copy(m.dev.get()), m.chain(0, 0, 0), m.eph(0, 0)));
        for (int left = mc::tier(4, 6); left > 0; left--) { int v = mc::choose(3, "verdict"); if (v & 1) validate_chain(m, n.get(), "before edit"); if (v & 2) validate_node(m, n.get(), "before edit"); step(m, n, true); if (v != 2) validate_node(m, n.get(), "after edit"); uint64_t h = hash(n.get(), 0); mc::state(h); if (mc::seen(mc::Hash().u(h).u(left).h)) mc::prune(); } });
    mc::PartOpts rel; rel.require = { "node-valid", "chain-valid", "invalid" }; mc::part("key-relations", [] { relations(*toy, 3, mc::thorough()); }, rel); if (mc::thorough()) mc::part("key-relations-real", [] { relations(*real, 3, false); }, rel); else mc::part("key-relations-real", [] { relations(*real, 2, false); }, rel);
    return mc::finish();
}
