#include "gate.hpp"
// E04: a primitive fails.  MC_OSSLWRAP
static wickr_crypto_engine_t TOY, REAL; static bool two; static std::string pre;
struct Known { int64_t n; int want; std::vector<int> log; };
static void one(const OpDef &op, const wickr_crypto_engine_t &e, Mode m, const std::string &key)
{
    static std::map<std::string, Known> known; auto it = known.find(key);
    if (it == known.end())
    {
        Known k; { Inst i = op.make(e); arm(m, -1, -1); i.run(); k.n = disarm(m); k.log = m == OPENSSL ? ossl_log : kinds; k.want = i.check(); i.clear(); } MC_CHECK(op.expect < 0 || k.want == op.expect, "fault-free", "%s: without any fault the result is %d", op.name.c_str(), k.want); it = known.emplace(key, k).first; rng_seed(mc::seed() + 7);
    }
    const Known &K = it->second; if (!K.n) { mc::outcome("none"); return; } int k = mc::choose((int)K.n, "failing call"), k2 = -1; if (two && m != RANDOM) { int more = (int)K.n - k; if (more > 40) more = 40; k2 = mc::choose(more + 1, "second failing call"); k2 = k2 ? k + k2 : -1; }
    std::string what = m == RANDOM ? "random request" : m == PRIMS ? engine_call_name[K.log[k]] : ossl_names[K.log[k]]; ossl_variant = m == OPENSSL && negative_too(what) ? mc::choose(2, "reported as") : 0;
    int r = 0; int64_t held = 0;
    for (int turn = 0; turn < 3; turn++)        // what OpenSSL keeps for itself it acquires the first time
    {
        trk::reset(); held = ossl_blocks(); trk::on = true; Inst i = op.make(e); mc::note("%s, call %d of %lld (%s) fails%s", op.name.c_str(), k, (long long)K.n, what.c_str(), ossl_variant ? " with -1" : ""); arm(m, k, k2); i.run(); int64_t made = disarm(m); MC_CHECK(made > k, "nondeterministic", "%s: call %d was not reached", op.name.c_str(), k);
        r = i.check(); MC_CHECK(r == 0 || op.expect < 0 || r == K.want, "wrong-result", "%s: reported result %d although %s failed", op.name.c_str(), r, what.c_str()); MC_CHECK(!r || !(m == RANDOM || what == "RAND_bytes"), "without-random", "%s: reports success (%d) although random request %d (%s) failed", op.name.c_str(), r, k, what.c_str()); i.clear(); trk::on = false; i = Inst(); ERR_clear_error(); held = ossl_blocks() - held; if (held == 0) break; rng_seed(mc::seed() + 7);
    }
    MC_CHECK(held == 0, "openssl-leak", "%s: every time %s fails, %lld objects of OpenSSL are never released", op.name.c_str(), what.c_str(), (long long)held);
    mc::outcome(r ? "completed" : "failed"); mc::step(); MC_CHECK(trk::live() == 0, "leak", "%s: when %s failed, these allocations are never released: %s", op.name.c_str(), what.c_str(), trk::describe_live().c_str());
    mc::nontrivial(mc::Hash().s(key).u(k).u(k2).u(ossl_variant).h);
}
static void group(const char *name, std::vector<OpDef> (*f)(), bool real, Mode m)
{
    static std::map<std::string, std::vector<OpDef>> cache; std::string n = name; cache[n] = f(); std::vector<OpDef> &ops = cache[n]; mc::PartOpts o; o.require = { "failed" };
    std::string pn = pre + n + (real ? "" : "-toy") + (m == PRIMS ? "" : m == RANDOM ? "-random" : "-openssl"); mc::part(strdup(pn.c_str()), [&ops, real, pn, m] { const OpDef &op = ops[mc::choose((int)ops.size(), "operation")]; one(op, real ? REAL : TOY, m, pn + op.name); }, o);
}
static void all(bool real, Mode m) { group("objects", ops::objects, real, m); group("accounts", ops::accounts, real, m); group("messages", ops::messages, real, m); group("streams", ops::streams, real, m); group("channels", ops::channels, real, m); }
int main(int argc, char **argv)
{
    mc::init("E04", "fault_enumeration", "every primitive call, random request and OpenSSL call of every operation fails, one at a time", argc, argv); rng_install(); rng_seed(mc::seed());
    REAL = real_engine(); TOY = spy_engine(toy_engine()); gate_init();
    mc::on_exec([] { trk::on = false; counting = ossl_on = false; rng_fail_at = -1; fail1 = fail2 = ossl_fail1 = ossl_fail2 = -1; rng_seed(mc::seed() + 7); ERR_clear_error(); });
    mc::assume("a failing primitive does nothing and reports failure in the way it is documented to"); mc::assume("getters and look-ups of constants in OpenSSL do not fail"); mc::assume("the passphrase KDF is the stand-in described in DESIGN.md");
    group("primitives", ops::primitives, true, OPENSSL); group("primitives", ops::primitives, true, RANDOM); group("files", ops::files, true, OPENSSL);
    all(false, PRIMS); all(false, RANDOM); all(true, OPENSSL);
    if (mc::thorough()) { all(true, RANDOM); two = true; pre = "pairs-"; group("primitives", ops::primitives, true, OPENSSL); group("files", ops::files, true, OPENSSL); all(false, PRIMS); all(true, OPENSSL); }
    return mc::finish();
}
