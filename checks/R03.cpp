#include "ops.hpp"
#include "use.hpp"
#include "rec.hpp"
#include <unordered_map>
#include <openssl/err.h>
#include <execinfo.h>
#include "gate.hpp"
// R03: memory that is released does not contain secret keys  (MC_OSSLWRAP)
static wickr_crypto_engine_t E; static std::unordered_map<uint64_t, Bytes> win; static bool scanning; static std::string found; static bool full; static int depth;
static std::unordered_map<size_t, std::set<Bytes>> bylen;    // a block of the size of a secret must not even keep parts of it in place
static bool partial(const unsigned char *b, const Bytes &s) { size_t n = s.size(), eq = 0, head = 0, tail = 0; for (size_t i = 0; i < n; i++) if (b[i] && b[i] == (uint8_t)s[i]) { eq++; head += i < 4; tail += i >= n - 4; } return eq >= 8 || head == 4 || tail == 4; }
static void know(const Bytes &s) { if (s.size() >= 8) bylen[s.size()].insert(s); uint64_t v; for (size_t i = 0; i + 8 <= s.size(); i++) { memcpy(&v, s.data() + i, 8); if (v != 0 && v != ~0ull) win[v] = s; } }
extern "C" void __sanitizer_symbolize_pc(void *pc, const char *fmt, char *out, size_t n);
static void freed(void *p, size_t n)
{
    if (!scanning || n < 8 || !found.empty()) return; uint64_t v; const unsigned char *b = (const unsigned char *)p;
    auto say = [&](size_t i, const Bytes &sec, const char *how) {
        void *st[40]; int k = backtrace(st, 40); std::string s; for (int j = 1, got = 0; j < k && got < 6; j++) { char o[400]; __sanitizer_symbolize_pc((char *)st[j] - 1, "%f", o, 400); if (strstr(o, "wickr") || strstr(o, "openssl") || strstr(o, "proto") || strstr(o, "toy")) { s += std::string(got ? " < " : "") + o; got++; } }
        found = "a block of " + std::to_string(n) + " bytes was released " + how + " of secret " + hex(sec, 100) + " (" + hex(Bytes((const char *)b + i, 8), 20) + ")" + " at offset " + std::to_string(i) + " by " + s; };
    for (size_t i = 0; i + 8 <= n; i++) { memcpy(&v, b + i, 8); auto it = win.find(v); if (it != win.end()) { say(i, it->second, "with 8 bytes"); return; } }
    auto l = bylen.find(n); if (l != bylen.end()) for (auto &x : l->second) if (partial(b, x)) { say(0, x, "with parts"); return; }
}
struct Scan { Scan() { found.clear(); trk::on_free = freed; scanning = true; } ~Scan() { scanning = false; trk::on_free = nullptr; } };
static void judge(const char *key, const std::string &what) { scanning = false; if (!found.empty()) { trk::on = false; trk::fail_at = trk::fail_at2 = -1; mc::fail(key, "%s: %s", what.c_str(), found.c_str()); } }
static void learn() { for (auto &s : rec::all) know(s); rec::all.clear(); }
// ---- every operation, fault-free and with each failing memory request --------------------------------
struct Known { std::set<Bytes> secrets; int64_t n; };
static const Known &known(const OpDef &op, const std::string &key)
{
    static std::map<std::string, Known> memo; auto it = memo.find(key); if (it != memo.end()) return it->second; Known k; rec::all.clear(); rng_seed(mc::seed() + 7); trk::reset(); { Inst i = op.make(E); trk::on = true; int64_t at = trk::count; i.run(); k.n = trk::count - at; trk::on = false; i.check(); i.clear(); } k.secrets = rec::all; rec::all.clear(); rng_seed(mc::seed() + 7); return memo.emplace(key, k).first->second;
}
static std::vector<OpDef> OPS; static std::string pre; static size_t keyed;     // from `keyed` on, operations of streams and channels: random blocks of key size are keys
static void one(const OpDef &op, bool faults, const std::string &key)
{
    const Known &k = known(op, key); int f = faults ? k.n ? mc::choose((int)k.n, "failing allocation") : -2 : -1; if (f == -2) { mc::outcome("no-allocation"); return; } win.clear(); bylen.clear(); for (auto &s : k.secrets) know(s); for (auto s : { "a pre-shared secret key", "a long phrase", "pass phrase" }) know(s); rec::all.clear(); mc::note("%s, %zu secrets%s%s", op.name.c_str(), k.secrets.size(), f < 0 ? "" : ", failing allocation ", f < 0 ? "" : std::to_string(f).c_str());
    { Scan s; trk::reset(); trk::on = true; { Inst i = op.make(E); learn(); int64_t at = trk::count; if (f >= 0) trk::fail_at = at + f; i.run(); trk::fail_at = -1; learn(); i.check(); mc::step(); i.clear(); learn(); } trk::on = false; ERR_clear_error(); judge(faults ? "released-on-failure" : "released", op.name); }
    mc::outcome(k.secrets.size() ? "secrets" : "no-secrets"); mc::state(mc::Hash().s(key).u(f).h);
}
// the same with one failing primitive, or one failing call of OpenSSL or of a passphrase KDF
static void primitive(Mode m)
{
    int i = mc::choose((int)OPS.size(), "operation"); const OpDef &op = OPS[i]; rec::random32 = (size_t)i >= keyed; std::string key = pre + op.name; const Known &k = known(op, key); static std::map<std::string, std::vector<int>> memo; auto it = memo.find(key + std::to_string(m));
    if (it == memo.end()) { rng_seed(mc::seed() + 7); { Inst in = op.make(E); arm(m, -1, -1); in.run(); disarm(m); in.check(); in.clear(); } it = memo.emplace(key + std::to_string(m), m == OPENSSL ? ossl_log : kinds).first; rec::all.clear(); rng_seed(mc::seed() + 7); }
    if (it->second.empty()) { mc::outcome("no-call"); return; } int n = mc::choose((int)it->second.size(), "failing call"); const char *what = m == PRIMS ? engine_call_name[it->second[n]] : ossl_names[it->second[n]]; win.clear(); bylen.clear(); /* where random bytes fail, the key that would have been made of them is none */ if (!strstr(what, "RAND_")) for (auto &s : k.secrets) know(s); for (auto s : { "a pre-shared secret key", "a long phrase", "pass phrase" }) know(s); mc::note("%s, call %d (%s) fails", op.name.c_str(), n, what);
    { Scan s; trk::reset(); trk::on = true; { Inst in = op.make(E); learn(); arm(m, n, -1); in.run(); disarm(m); learn(); in.check(); mc::step(); in.clear(); learn(); } trk::on = false; ERR_clear_error(); judge("released-on-primitive-failure", op.name + " with " + what + " failing"); }
    mc::outcome(k.secrets.size() ? "secrets" : "no-secrets"); mc::state(mc::Hash().s(key).u(m).u(n).h);
}
static void operations(bool faults) { int i = mc::choose((int)OPS.size(), "operation"); const OpDef &op = OPS[i]; rec::random32 = (size_t)i >= keyed; one(op, faults, pre + op.name); }
static void copies(bool faults)
{
    rec::random32 = false;
    const Type &t = mc::pick(types(), "type"); Maker m{ E, full }; { void *x = t.make(m); MC_CHECK(x, "make", "%s", t.name); t.destroy(x); } rng_seed(mc::seed() + 7); std::vector<OpDef> ops = ops::generic(t, m.took, full); if (ops.empty()) { mc::outcome("none"); return; } int i = mc::choose((int)ops.size(), "operation"); std::string key = pre + ops[i].name; for (int p : m.took) key += "," + std::to_string(p); one(ops[i], faults, key);
}
// ---- histories of copies and uses of every type --------------------------------------------------------
static void look(const Type &t, void *o) { Dump d(false); d.keys_only = true; t.dump(d, o); for (auto &s : d.secrets) if (s.size() >= 8) know(rec::scalar(s)); }
static void histories()
{
    rec::random32 = false;
    const Type &t = mc::pick(types(), "type"); static std::map<std::string, std::vector<Use>> cache; if (!cache.count(t.name)) cache[t.name] = uses(t); const std::vector<Use> &us = cache[t.name]; std::string why; int secrets = 0;
    // the same history twice: first to learn the secrets it deals with, then to look for them
    std::vector<std::array<int, 3>> acts; std::vector<int> path; bool back = false; win.clear(); bylen.clear(); rec::all.clear();
    for (int pass = 0; pass < 2; pass++)
    {
        rng_seed(mc::seed() + 7); std::unique_ptr<Scan> scan; if (pass) { secrets = (int)win.size(); scan.reset(new Scan); trk::reset(); trk::on = true; } void *s[3] = {}; Maker m{ E, full }; if (pass) { m.fixed = path; m.use_fixed = true; } s[0] = t.make(m); if (!pass) { path = m.took; MC_CHECK(s[0], "make", "%s", t.name); look(t, s[0]); learn(); }
        int live = 1; for (int n = 0; n < depth && live; n++)
        {
            std::array<int, 3> a; if (!pass) { std::vector<std::array<int, 3>> as; for (int i = 0; i < 3; i++) if (s[i]) { if (live < 3 && t.copy) as.push_back({ 0, i, 0 }); if (n) as.push_back({ 1, i, 0 }); for (int u = 0; u < (int)us.size(); u++) as.push_back({ 2, i, u }); } if (as.empty()) break; a = as[mc::choose((int)as.size(), "action")]; acts.push_back(a); } else { if (n >= (int)acts.size()) break; a = acts[n]; }
            if (a[0] == 0) { int j = 0; while (s[j]) j++; s[j] = t.copy(s[a[1]]); live++; if (!pass) why += " copy " + std::to_string(a[1]); } else if (a[0] == 1) { t.destroy(s[a[1]]); s[a[1]] = nullptr; live--; if (!pass) why += " destroy " + std::to_string(a[1]); } else { us[a[2]].f(E, s[a[1]]); if (!pass) { why += std::string(" ") + us[a[2]].name + " " + std::to_string(a[1]); look(t, s[a[1]]); } } learn(); mc::step();
            if (pass) { scanning = false; judge("destroyed", std::string(t.name) + ":" + why + " (action " + std::to_string(n + 1) + ")"); scanning = true; } else mc::note("%s:%s", t.name, why.c_str());
        }
        if (!pass) back = live > 1 && mc::flip("destroy the last first"); for (int k = 0; k < 3; k++) { int i = back ? 2 - k : k; if (s[i]) { t.destroy(s[i]); } } sink_reset(); feed().clear(); learn(); trk::on = false;
    }
    judge("destroyed", std::string(t.name) + ":" + why + " (final destroy)"); mc::outcome(secrets ? t.name : "no-secrets"); mc::state(mc::Hash().s(t.name).s(why).u(back).h);
}
// ---- every byte of every secret field, whatever its length -----------------------------------------------
static std::map<void *, size_t> watched; static std::string left;
static void freed_watched(void *p, size_t n) { auto it = watched.find(p); if (it == watched.end()) return; size_t m = 0, at = 0; for (size_t i = 0; i < it->second && i < n; i++) if (((uint8_t *)p)[i] == 0xa5) { m++; at = i; } if (m) left = std::to_string(m) + " of " + std::to_string(it->second) + " secret bytes were still there when their memory was released (the last at offset " + std::to_string(at) + ")"; watched.erase(it); }
static void bytes()
{
    rec::random32 = false; left.clear(); watched.clear(); std::string what; std::function<void()> destroy; auto watch = [](const wickr_buffer_t *b) { memset(b->bytes, 0xa5, b->length); watched[b->bytes] = b->length; }; trk::reset(); trk::on = true;
    if (mc::flip("field")) { const Type &t = mc::pick(types(), "type"); what = t.name; Maker m{ E, true }; void *o = t.make(m); MC_CHECK(o, "make", "%s", t.name); if (t.copy && mc::flip("copy")) { void *c = t.copy(o); t.destroy(o); o = c; what += " (copied)"; } Dump d(false); d.keys_only = true; t.dump(d, o); for (auto &b : d.where) watch(&b); destroy = [&t, o] { t.destroy(o); }; }
    else { size_t n = 1 + mc::choose(mc::tier(70, 300), "length"); int k = mc::choose(5, "kind"); static const char *kn[] = { "buffer", "cipher_key", "ec_key", "transport_root_key", "kdf_result" }; what = std::string(kn[k]) + " of " + std::to_string(n); MB b = mk(Bytes(n, 'k'));
        if (k == 0) destroy = [b] { MB x = b; wickr_buffer_destroy_zero(&x); }; wickr_cipher_t c = CIPHER_AES256_GCM; c.key_len = n < 256 ? n : 0;
        if (k == 1) { wickr_cipher_key_t *x = wickr_cipher_key_create(c, b); if (x) destroy = [x] { wickr_cipher_key_t *y = x; wickr_cipher_key_destroy(&y); }; } if (k == 2) { wickr_ec_key_t *x = wickr_ec_key_create(EC_CURVE_NIST_P521, mk("pub"), b); if (x) destroy = [x] { wickr_ec_key_t *y = x; wickr_ec_key_destroy(&y); }; }
        if (k == 3) { wickr_transport_root_key_t *x = wickr_transport_root_key_create(b, c, 4, 4); if (x) destroy = [x] { wickr_transport_root_key_t *y = x; wickr_transport_root_key_destroy(&y); }; } if (k == 4) { wickr_kdf_result_t *x = wickr_kdf_result_create(wickr_kdf_meta_create(KDF_HKDF_SHA256, mk(pat(32)), nullptr), b); if (x) destroy = [x] { wickr_kdf_result_t *y = x; wickr_kdf_result_destroy(&y); }; }
        if (!destroy) { wickr_buffer_destroy(&b); trk::on = false; mc::outcome("refused"); return; } watch(b); }
    size_t n = watched.size(); trk::on_free = freed_watched; destroy(); trk::on_free = nullptr; trk::on = false; mc::step(); MC_CHECK(left.empty(), "incomplete-erasure", "%s: %s", what.c_str(), left.c_str()); MC_CHECK(watched.empty(), "kept", "%s: %zu secrets were not released", what.c_str(), watched.size()); mc::outcome(n ? "erased" : "no-secrets"); mc::state(mc::Hash().s(what).u(n).h); watched.clear(); sink_reset(); feed().clear();
}
int main(int argc, char **argv)
{
    mc::init("R03", "model_checking", "every block the library releases, in every operation, in every operation with one failing memory request, and in all histories of copies and uses of every object type, is searched for every secret key in play", argc, argv); rng_install(); rng_seed(mc::seed());
    mc::on_exec([] { trk::on = false; scanning = false; trk::on_free = nullptr; trk::fail_at = trk::fail_at2 = -1; counting = ossl_on = false; fail1 = fail2 = ossl_fail1 = ossl_fail2 = -1; rng_seed(mc::seed() + 7); }); mc::assume("memory inside OpenSSL and on the stack is not searched"); mc::assume("secrets shorter than 8 bytes are not searched for"); mc::assume("the passphrase KDF is the stand-in described in DESIGN.md");
    wickr_crypto_engine_t toy = rec::engine(toy_engine()); E = toy;
    std::set<std::string> names; for (const char *n : { "cipher_key", "ec_key", "ephemeral_keypair", "identity", "identity_chain_private", "node", "root_keys", "storage_keys", "stream_key", "stream_ctx", "transport_root_key", "transport_ctx", "transport_handshake", "ecdh_cipher_ctx", "ctx", "ctx_gen_result", "encoder_result", "kdf_result", "handshake_res" }) names.insert(n);
    mc::PartOpts o; o.require = { "secrets" }; mc::PartOpts h; h.require = names;
    auto set = [&](std::initializer_list<std::vector<OpDef> (*)()> fs, const char *p) { OPS.clear(); pre = p; keyed = ~0ul; for (auto f : fs) { if (f == ops::streams && keyed == ~0ul) keyed = OPS.size(); for (auto &x : f()) OPS.push_back(x); } };
    set({ ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }, "toy-"); mc::part("operations-toy", [] { operations(false); }, o); mc::part("failures-toy", [] { operations(true); }, o); full = false; mc::part("copies", [] { copies(false); }, o); mc::part("copies-failures", [] { copies(true); }, o);
    depth = mc::tier(3, 4); mc::part("histories", histories, h); full = true; depth = mc::tier(1, 2); mc::part("every-variant", histories, h);
    mc::PartOpts y; y.require = { "erased" }; mc::part("every-byte", bytes, y);
    E = rec::engine(real_engine()); set({ ops::primitives, ops::files, ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }, "real-"); mc::part("operations", [] { operations(false); }, o);
    set({ ops::primitives, ops::files, ops::objects, ops::accounts, ops::messages }, "real-"); if (mc::thorough()) set({ ops::primitives, ops::files, ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }, "real-"); mc::part("failures", [] { operations(true); }, o);
    full = false; depth = mc::tier(1, 3); mc::part("histories-real", histories, h);
    set({ ops::primitives, ops::files, ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }, "real-"); mc::part("failing-openssl", [] { primitive(OPENSSL); }, o);
    set({ ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }, "prim-"); E = spy_engine(rec::engine(toy_engine())); gate_init(); mc::part("failing-primitives", [] { primitive(PRIMS); }, o);
    return mc::finish();
}
