#include "ops.hpp"
#include <openssl/err.h>
// R01: running out of memory
static bool two; static std::string pre;
static void one(const OpDef &op, const wickr_crypto_engine_t &e, const std::string &key)
{
    // how many requests does it make?
    static std::map<std::string, std::pair<int64_t, int>> known; auto it = known.find(key);
    if (it == known.end())
    {
        trk::reset(); int64_t n; int want; { trk::on = true; Inst i = op.make(e); int64_t at = trk::count; i.run(); n = trk::count - at; trk::on = false; want = i.check(); i.clear(); trk::on = false; }
        MC_CHECK(op.expect < 0 || want == op.expect, "fault-free", "%s: without any fault the result is %d", op.name.c_str(), want); MC_CHECK(trk::live() == 0, "leak", "%s: without any fault these allocations are never released: %s", op.name.c_str(), trk::describe_live().c_str());
        it = known.emplace(key, std::make_pair(n, want)).first; rng_seed(mc::seed() + 7);
    }
    int64_t n = it->second.first; int want = it->second.second; if (!n) { mc::outcome("no-allocation"); return; } int k = mc::choose((int)n, "failing allocation"), k2 = two ? mc::choose((int)n + 2 - k > 60 ? 60 : (int)n + 2 - k, "second failing allocation") : -1;
    int64_t held = 0;
    for (int turn = 0; turn < 3; turn++)        // what OpenSSL keeps for itself it acquires the first time
    {
        trk::reset(); held = ossl_blocks(); trk::on = true; Inst i = op.make(e); int64_t at = trk::count; trk::fail_at = at + k; trk::fail_at2 = k2 > 0 ? at + k + k2 : -1; mc::note("%s, allocation %d of %lld fails", op.name.c_str(), k, (long long)n); i.run(); int64_t made = trk::count - at; trk::fail_at = trk::fail_at2 = -1;
        MC_CHECK(made > k, "nondeterministic", "%s: allocation %d was not reached", op.name.c_str(), k); int r = i.check(); MC_CHECK(r == 0 || op.expect < 0 || r == want, "wrong-result", "%s: reported result %d when allocation %d failed", op.name.c_str(), r, k); mc::outcome(r ? "completed" : "failed"); mc::step();
        if (i.again || (!r && i.retry)) { i.clear(); i.run(); r = i.check(); MC_CHECK(op.expect == -1 || r == want, "unusable", "%s: after allocation %d failed, the operation does not work any more (%d)", op.name.c_str(), k, r); }
        i.clear(); trk::on = false; i = Inst(); ERR_clear_error(); held = ossl_blocks() - held; if (held == 0) break; rng_seed(mc::seed() + 7);
    }
    MC_CHECK(held == 0, "openssl-leak", "%s: every time allocation %d fails, %lld objects of OpenSSL are never released", op.name.c_str(), k, (long long)held);
    MC_CHECK(trk::live() == 0, "leak", "%s: when allocation %d failed, these allocations are never released: %s", op.name.c_str(), k, trk::describe_live().c_str());
    mc::nontrivial(mc::Hash().s(key).u(k).u(k2).h);
}
static wickr_crypto_engine_t TOY, REAL;
static void group(const char *name, std::vector<OpDef> (*f)(), bool real)
{
    static std::map<std::string, std::vector<OpDef>> cache; std::string n = name; cache[n] = f(); std::vector<OpDef> &ops = cache[n]; mc::PartOpts o; o.require = { "failed" };
    std::string pn = pre + n + (real ? "" : "-toy"); mc::part(strdup(pn.c_str()), [&ops, real, pn] { const OpDef &op = ops[mc::choose((int)ops.size(), "operation")]; one(op, real ? REAL : TOY, pn + op.name); }, o);
}
static void objects()
{
    const Type &t = mc::pick(types(), "type"); bool full = mc::thorough(); Maker m{ TOY, full }; { void *x = t.make(m); MC_CHECK(x, "make", "%s", t.name); t.destroy(x); } rng_seed(mc::seed() + 7); std::vector<OpDef> ops = ops::generic(t, m.took, full); if (ops.empty()) { mc::outcome("none"); return; } int i = mc::choose((int)ops.size(), "operation"); std::string key = ops[i].name; for (int p : m.took) key += "," + std::to_string(p); one(ops[i], TOY, key);
}
int main(int argc, char **argv)
{
    mc::init("R01", "fault_enumeration", "every memory request of every operation fails, one at a time", argc, argv); rng_install(); rng_seed(mc::seed()); REAL = real_engine(); TOY = toy_engine(); mc::on_exec([] { trk::on = false; trk::fail_at = trk::fail_at2 = -1; rng_seed(mc::seed() + 7); });
    mc::assume("memory requests made inside OpenSSL do not fail here (they do in E04, as failures of its functions)"); mc::assume("the passphrase KDF is the stand-in described in DESIGN.md");
    group("primitives", ops::primitives, true); group("files", ops::files, true); group("objects", ops::objects, false); group("accounts", ops::accounts, false); group("messages", ops::messages, false); group("streams", ops::streams, false); group("channels", ops::channels, false); mc::PartOpts o; o.require = { "failed" }; mc::part("copies", objects, o);
    group("objects", ops::objects, true); group("accounts", ops::accounts, true); group("messages", ops::messages, true);
    if (mc::thorough()) { group("streams", ops::streams, true); group("channels", ops::channels, true); two = true; pre = "pairs-"; group("primitives", ops::primitives, true); group("files", ops::files, true); group("objects", ops::objects, false); group("accounts", ops::accounts, false); group("messages", ops::messages, false); group("streams", ops::streams, false); group("channels", ops::channels, false); }
    return mc::finish();
}
