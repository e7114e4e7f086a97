// MC_SHARED: the library's sources are compiled with a report of every edge, load and store
#include "ops.hpp"
#include <semaphore.h>
#include <pthread.h>
#include <exception>
#include <openssl/err.h>
// R04: operations on distinct objects never interfere, whatever the interleaving
// ---- threads that run one at a time and stop at points -------------------------------------------------
enum { P_PRIM = 1, P_GLOBAL = 2, P_EDGE = 4 };
struct Th { pthread_t t; sem_t go, back; std::function<void()> body; bool quit = false, done = true, waiting = false; int mask = 0; uint64_t at = 0, stop = ~0ull, log = 0, calls = 0; Rng rng; int salt = 0; uint32_t *last[2] = {}; std::exception_ptr ex; };
static thread_local Th *me; static Th *pool[3]; static pid_t pool_pid;
static __attribute__((noinline)) void point(int kind) { Th *t = me; if (!t || !(t->mask & kind)) return; if (t->at++ == t->stop) { t->stop = ~0ull; sem_post(&t->back); while (sem_wait(&t->go)) {} } }
extern "C" char __data_start, _end;
static inline bool global(const void *p, size_t n) { return (char *)p + n > &__data_start && (char *)p < &_end; }
extern "C" {
void pt_touch(const void *p, size_t n) { if (me && global(p, n)) point(P_GLOBAL); }
#define ACC(N) void __sanitizer_cov_load##N(void *p) { if (me && global(p, N)) point(P_GLOBAL); } void __sanitizer_cov_store##N(void *p) { if (me && global(p, N)) point(P_GLOBAL); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { Th *t = me; if (!t || g == t->last[0] || g == t->last[1]) return; t->last[1] = t->last[0]; t->last[0] = g; point(P_EDGE); }     // of a tight loop, the first turn
}
static void *work(void *a) { Th *t = (Th *)a; for (;;) { while (sem_wait(&t->go)) {} if (t->quit) return nullptr; rng_own = &t->rng; pat_salt = t->salt; me = t; try { t->body(); } catch (...) { t->ex = std::current_exception(); } me = nullptr; ERR_clear_error(); t->done = true; sem_post(&t->back); } }
static Th *thread(int i) { if (pool_pid != getpid()) { pool_pid = getpid(); for (auto &p : pool) p = nullptr; } if (!pool[i]) { Th *t = pool[i] = new Th; sem_init(&t->go, 0, 0); sem_init(&t->back, 0, 0); if (pthread_create(&t->t, nullptr, work, t)) { perror("thread"); abort(); } } return pool[i]; }
static bool wait(Th *t, int s) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += s; for (;;) { if (!sem_timedwait(&t->back, &ts)) { t->waiting = false; return true; } if (errno != EINTR) { t->waiting = true; return false; } } }
// run thread i up to its next `n` points (or to its end); false if it waits for something another thread holds
static bool advance(int i, uint64_t n = ~0ull) { Th *t = pool[i]; if (t->done) return true; if (t->waiting && !wait(t, 1)) return false; if (t->done) return true; t->stop = n == ~0ull ? n : t->at + n; sem_post(&t->go); return wait(t, 2); }
// ---- an engine that logs what every primitive was asked and what it answered -----------------------------
static wickr_crypto_engine_t LB;
struct In { mc::Hash h; In &u(uint64_t x) { h.u(x); return *this; } In &b(CB x) { h.u(x ? x->length : ~0ull); if (x && x->bytes) h.s(Bytes((const char *)x->bytes, x->length)); return *this; } };
static uint64_t S(CB b) { return In().b(b).h.h; }
static uint64_t D(const wickr_cipher_key_t *x) { return x ? In().u(x->cipher.cipher_id).b(x->key_data).h.h : 0; }
static uint64_t D(const wickr_cipher_result_t *x) { return x ? In().u(x->cipher.cipher_id).b(x->iv).b(x->cipher_text).b(x->auth_tag).h.h : 0; }
static uint64_t D(const wickr_ec_key_t *x) { return x ? In().u(x->curve.identifier).b(x->pub_data).b(x->pri_data).h.h : 0; }
static uint64_t D(const wickr_ecdsa_result_t *x) { return x ? In().u(x->curve.identifier).u(x->digest_mode.digest_id).b(x->sig_data).h.h : 0; }
static uint64_t D(const wickr_kdf_meta_t *x) { return x ? In().u(x->algo.algo_id).u(x->algo.cost).b(x->salt).b(x->info).h.h : 0; }
static uint64_t D(const wickr_kdf_result_t *x) { return x ? In().u(D(x->meta)).b(x->hash).h.h : 0; }
static void note(int k, std::initializer_list<uint64_t> io) { if (!me) return; mc::Hash h; h.u(me->log).u(k); for (auto x : io) h.u(x); me->log = h.h; me->calls++; }
static wickr_crypto_engine_t logging(const wickr_crypto_engine_t &b)
{
    LB = b; wickr_crypto_engine_t e = b;
    e.wickr_crypto_engine_crypto_random = [](size_t n) { point(P_PRIM); MB r = LB.wickr_crypto_engine_crypto_random(n); note(0, { S(r) }); return r; };
    e.wickr_crypto_engine_cipher_key_random = [](wickr_cipher_t c) { point(P_PRIM); auto r = LB.wickr_crypto_engine_cipher_key_random(c); note(1, { D(r) }); return r; };
    e.wickr_crypto_engine_cipher_encrypt = [](CB p, CB a, const wickr_cipher_key_t *k, CB iv) { point(P_PRIM); auto r = LB.wickr_crypto_engine_cipher_encrypt(p, a, k, iv); note(2, { S(p), S(a), D(k), S(iv), D(r) }); return r; };
    e.wickr_crypto_engine_cipher_decrypt = [](const wickr_cipher_result_t *c, CB a, const wickr_cipher_key_t *k, bool o) { point(P_PRIM); auto r = LB.wickr_crypto_engine_cipher_decrypt(c, a, k, o); note(3, { D(c), S(a), D(k), S(r) }); return r; };
    e.wickr_crypto_engine_digest = [](CB p, CB s, wickr_digest_t d) { point(P_PRIM); auto r = LB.wickr_crypto_engine_digest(p, s, d); note(4, { S(p), S(s), S(r) }); return r; };
    e.wickr_crypto_engine_ec_rand_key = [](wickr_ec_curve_t c) { point(P_PRIM); auto r = LB.wickr_crypto_engine_ec_rand_key(c); note(5, { D(r) }); return r; };
    e.wickr_crypto_engine_ec_key_import = [](CB b, bool p) { point(P_PRIM); auto r = LB.wickr_crypto_engine_ec_key_import(b, p); note(6, { S(b), D(r) }); return r; };
    e.wickr_crypto_engine_ec_sign = [](const wickr_ec_key_t *k, CB d, wickr_digest_t m) { point(P_PRIM); auto r = LB.wickr_crypto_engine_ec_sign(k, d, m); note(7, { D(k), S(d), D(r) }); return r; };
    e.wickr_crypto_engine_ec_verify = [](const wickr_ecdsa_result_t *s, const wickr_ec_key_t *k, CB d) { point(P_PRIM); auto r = LB.wickr_crypto_engine_ec_verify(s, k, d); note(8, { D(s), D(k), S(d), r }); return r; };
    e.wickr_crypto_engine_gen_shared_secret = [](const wickr_ec_key_t *l, const wickr_ec_key_t *p) { point(P_PRIM); auto r = LB.wickr_crypto_engine_gen_shared_secret(l, p); note(9, { D(l), D(p), S(r) }); return r; };
    e.wickr_crypto_engine_hmac_create = [](CB d, CB k, wickr_digest_t m) { point(P_PRIM); auto r = LB.wickr_crypto_engine_hmac_create(d, k, m); note(10, { S(d), S(k), S(r) }); return r; };
    e.wickr_crypto_engine_hmac_verify = [](CB d, CB k, const wickr_digest_t m, CB x) { point(P_PRIM); auto r = LB.wickr_crypto_engine_hmac_verify(d, k, m, x); note(11, { S(d), S(k), S(x), r }); return r; };
    e.wickr_crypto_kdf_gen = [](wickr_kdf_algo_t g, CB p) { point(P_PRIM); auto r = LB.wickr_crypto_kdf_gen(g, p); note(12, { S(p), D(r) }); return r; };
    e.wickr_crypto_kdf_meta = [](const wickr_kdf_meta_t *m, CB p) { point(P_PRIM); auto r = LB.wickr_crypto_kdf_meta(m, p); note(13, { D(m), S(p), D(r) }); return r; };
    e.wickr_crypto_engine_encrypt_file = [](const wickr_cipher_key_t *k, const char *a, const char *b) { point(P_PRIM); auto r = LB.wickr_crypto_engine_encrypt_file(k, a, b); note(14, { D(k), r }); return r; };
    e.wickr_crypto_engine_decrypt_file = [](const wickr_cipher_key_t *k, const char *a, const char *b, bool o) { point(P_PRIM); auto r = LB.wickr_crypto_engine_decrypt_file(k, a, b, o); note(15, { D(k), r }); return r; };
    return e;
}
// ---- operations ---------------------------------------------------------------------------------------------
static std::vector<OpDef> OPS; static wickr_crypto_engine_t E; static int mask, mix;
struct Run { Inst i; const OpDef *op; int n; };
static uint64_t seed_of(int n) { return mc::seed() + 7 + 1000 * n; }
static void make(Run &r, const OpDef &op, int n) { pat_salt = n; rng_seed(seed_of(n)); r.op = &op; r.n = n; r.i = op.make(E); pat_salt = 0; }
static void start(Run &r, int i) { Th *t = thread(i); t->body = r.i.run; t->done = false; t->waiting = false; t->mask = mask; t->at = 0; t->stop = ~0ull; t->log = 0; t->calls = 0; t->rng = Rng{ mc::mix(seed_of(r.n) + 1), 0 }; t->salt = r.n; t->ex = nullptr; t->last[0] = t->last[1] = nullptr; }
struct Alone { uint64_t n, log, calls; int result; };
static Alone verdict(Run &r, int i) { Th *t = pool[i]; if (t->ex) std::rethrow_exception(t->ex); Alone a; a.n = t->at; a.log = t->log; a.calls = t->calls; pat_salt = r.n; rng_seed(seed_of(r.n) + 5); a.result = r.i.check(); r.i.clear(); pat_salt = 0; ERR_clear_error(); return a; }
static const Alone &alone(const OpDef &op, int n)
{
    static std::map<std::string, Alone> memo; std::string key = op.name + "/" + std::to_string(n) + "/" + std::to_string(mask) + (E.wickr_crypto_engine_cipher_encrypt ? "" : "x"); auto it = memo.find(key); if (it != memo.end()) return it->second;
    Run r; make(r, op, n); start(r, 0); if (!advance(0)) mc::fail("stuck", "%s does not finish", op.name.c_str()); return memo.emplace(key, verdict(r, 0)).first->second;
}
static void compare(Run &r, int i, const char *with, const char *how)
{
    const Alone &want = alone(*r.op, r.n); Alone got = verdict(r, i); MC_CHECK(got.result == want.result, "result", "%s returns %d instead of %d when run together with %s (%s)", r.op->name.c_str(), got.result, want.result, with, how);
    MC_CHECK(got.log == want.log && got.calls == want.calls, "behaviour", "%s computes something else than alone (%llu primitives instead of %llu, or other values) when run together with %s (%s)", r.op->name.c_str(), (unsigned long long)got.calls, (unsigned long long)want.calls, with, how);
}
static void blocked(std::vector<int> ths)       // a thread waits for another one: let the others go on
{
    for (int turn = 0; turn < 6; turn++) { bool all = true; for (int i : ths) { if (!pool[i]->done) advance(i); all &= pool[i]->done; } if (all) return; } mc::fail("deadlock", "operations on distinct objects wait for each other for ever");
}
static int partner(int i, int k) { return k == 0 ? i : (i + k) % (int)OPS.size(); }
// `switches`: how often the running operation changes before both run to their ends
static void pairs(int switches, int partners)
{
    int i = mc::choose((int)OPS.size(), "operation"), k = mc::choose(partners, "partner"); const OpDef &a = OPS[i], &b = OPS[partner(i, k)]; uint64_t na = alone(a, 1).n, nb = alone(b, 2).n; std::string how; Run ra, rb; uint64_t c0 = 0, c1 = 0, c2 = 0;
    // A up to c0, B up to c1, A up to c2, ...
    if (!na) { mc::outcome("no-points"); return; } c0 = mc::choose((int)na, "first stop"); how = a.name + " stops at point " + std::to_string(c0); if (switches > 1 && nb) { c1 = mc::choose((int)nb, "second stop"); how += ", " + b.name + " at " + std::to_string(c1); } if (switches > 2 && na > c0) { c2 = mc::choose((int)(na - c0), "third stop"); how += ", then at " + std::to_string(c0 + c2); } mc::note("%s", how.c_str());
    make(ra, a, 1); make(rb, b, 2); start(ra, 0); start(rb, 1); bool ok = advance(0, c0); if (switches == 1) ok = advance(1) && ok; else { ok = advance(1, c1) && ok; if (switches > 2) { ok = advance(0, c2) && ok; ok = advance(1) && ok; } } ok = advance(0) && ok; ok = advance(1) && ok; if (!ok) blocked({ 0, 1 });
    compare(ra, 0, b.name.c_str(), how.c_str()); compare(rb, 1, a.name.c_str(), how.c_str()); mc::step(); mc::outcome("interleaved"); mc::state(mc::Hash().s(a.name).s(b.name).u(mask).u(c0).u(c1).u(c2).h);
}
static void triples()
{
    int i = mc::choose((int)OPS.size(), "operation"); const OpDef &a = OPS[i], &b = OPS[partner(i, mc::choose(2, "second") * 3)], &c = OPS[partner(i, 1 + mc::choose(2, "third"))]; uint64_t na = alone(a, 1).n, nb = alone(b, 2).n; alone(c, 3); if (!na || !nb) { mc::outcome("no-points"); return; } uint64_t c0 = mc::choose((int)na, "first stop"), c1 = mc::choose((int)nb, "second stop"); std::string how = a.name + " stops at " + std::to_string(c0) + ", " + b.name + " at " + std::to_string(c1) + " for " + c.name; mc::note("%s", how.c_str());
    Run ra, rb, rc; make(ra, a, 1); make(rb, b, 2); make(rc, c, 3); start(ra, 0); start(rb, 1); start(rc, 2); bool ok = advance(0, c0); ok = advance(1, c1) && ok; ok = advance(2) && ok; bool swap = mc::flip("first resumes first"); ok = advance(swap ? 0 : 1) && ok; ok = advance(swap ? 1 : 0) && ok; if (!ok) blocked({ 0, 1, 2 });
    compare(ra, 0, "two others", how.c_str()); compare(rb, 1, "two others", how.c_str()); compare(rc, 2, "two others", how.c_str()); mc::step(); mc::outcome("interleaved"); mc::state(mc::Hash().s(a.name).s(b.name).s(c.name).u(mask).u(c0).u(c1).u(swap).h);
}
// what an operation computes does not depend on how often anything was done before in the process
static void repeated(int times)
{
    int i = mc::choose((int)OPS.size(), "operation"), k = mc::choose(2, "alternating with"); const OpDef &a = OPS[i], &b = OPS[partner(i, k)]; if (a.heavy || b.heavy) times = times / 20 + 1; alone(a, 1); alone(b, 2);
    for (int t = 1; t <= times; t++) { mc::note("time %d", t); std::string how = "time " + std::to_string(t); { Run r; make(r, a, 1); start(r, 0); if (!advance(0)) mc::fail("stuck", "%s does not finish (time %d)", a.name.c_str(), t); compare(r, 0, b.name.c_str(), how.c_str()); } if (k) { Run r; make(r, b, 2); start(r, 0); if (!advance(0)) mc::fail("stuck", "%s does not finish (time %d)", b.name.c_str(), t); compare(r, 0, a.name.c_str(), how.c_str()); } mc::step(); }
    mc::outcome("repeated"); mc::state(mc::Hash().s(a.name).s(b.name).u(times).h);
}
static wickr_crypto_engine_t TOY, REAL;
int main(int argc, char **argv)
{
    mc::init("R04", "model_checking", "every interleaving, within bounds on the number of switches, of two and three operations on distinct objects: switches at every primitive and every access to writable global data, and at every control-flow edge", argc, argv); rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); pat_salt = 0; });
    mc::assume("OpenSSL and the C library are thread safe"); mc::assume("the passphrase KDF is the stand-in described in DESIGN.md"); mc::assume("memory model effects between two points (non-atomic access to a word) are not explored");
    mc::PartOpts o; o.require = { "interleaved" }; bool th = mc::thorough();
    auto set = [&](std::initializer_list<std::vector<OpDef> (*)()> fs) { OPS.clear(); for (auto f : fs) for (auto &x : f()) OPS.push_back(x); };
    set({ ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }); E = logging(toy_engine());
    mask = P_PRIM | P_GLOBAL; mc::part("two-switches", [th] { pairs(2, th ? 24 : 4); }, o); if (th) mc::part("three-switches", [] { pairs(3, 3); }, o); if (th) mc::part("three-operations", triples, o);
    mc::PartOpts rp; rp.require = { "repeated" }; mask = 0; mc::part("repeated", [th] { repeated(th ? 1500 : 300); }, rp);
    mask = P_PRIM | P_GLOBAL | P_EDGE; mc::part("every-edge", [th] { pairs(1, th ? 6 : 2); }, o);
    E = logging(real_engine()); set({ ops::primitives, ops::files }); mask = 0; mc::part("repeated-primitives", [th] { repeated(th ? 600 : 300); }, rp); mask = P_PRIM | P_GLOBAL | P_EDGE; mc::part("every-edge-primitives", [th] { pairs(1, th ? 6 : 2); }, o);
    if (th) { set({ ops::objects, ops::accounts, ops::messages, ops::streams, ops::channels }); mask = P_PRIM | P_GLOBAL; mc::part("one-switch-real", [] { pairs(1, 2); }, o); }
    return mc::finish();
}
