// mc.hpp - a small stateless model checker for real code.
//
// A check is a set of "parts".  A part is a function that draws every source of nondeterminism from
// mc::choose(n).  mc::part() executes it once for every sequence of choices (depth-first, by re-execution),
// on all cores, each worker in a process of its own, so that a crash of the code under test is a
// finding with a replayable choice sequence and not the end of the exploration machinery.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mc {

// ---- choices -------------------------------------------------------------------------------
int choose(int n, const char *label = nullptr);      // 0..n-1
inline bool flip(const char *label = nullptr) { return choose(2, label) == 1; }
template <class T> const T &pick(const std::vector<T> &v, const char *label = nullptr) { return v[choose((int)v.size(), label)]; }
[[noreturn]] void prune();                            // abandon this execution (counted as pruned)
// True if this state (fingerprint must include everything that matters, and the remaining depth when the
// search is depth-bounded) was already explored from; the caller then prunes.
bool seen(uint64_t fingerprint);

// ---- verdicts ------------------------------------------------------------------------------
// key: stable identification of the failing input / call site / history (matched against the
// known-findings file); the rest is the explanation.
[[noreturn]] void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// Record a violation that is a listed finding (returns true: the caller carries on) or fail.
bool known_or_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define MC_CHECK(cond, key, ...) do { if (!(cond)) ::mc::fail(key, __VA_ARGS__); } while (0)

// ---- measurement ---------------------------------------------------------------------------
void state(uint64_t fingerprint);                     // counts distinct states
void step(uint64_t n = 1);                            // counts transitions
void outcome(const char *name);                       // histogram of outcome classes
void nontrivial(uint64_t fingerprint);                // counts distinct non-trivial cases
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // trace line of this execution
bool replaying();

// ---- running -------------------------------------------------------------------------------
struct PartOpts { int split = 0; double exec_timeout = 120; bool serial = false; std::set<std::string> require; };
void init(const char *property, const char *level, const char *rule, int argc, char **argv);
void part(const char *name, const std::function<void()> &fn, PartOpts o = PartOpts());
void assume(const char *text);
int finish();
bool thorough();
uint64_t seed();
std::string scratch();                                // private scratch directory of this process (made on demand)
inline int tier(int quick, int thorough_) { return thorough() ? thorough_ : quick; }

// hook run at the start of every execution (reset of deterministic randomness and so on)
void on_exec(const std::function<void()> &f);

// ---- hashing -------------------------------------------------------------------------------
inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Hash {
    uint64_t h = 0x1234567;
    Hash &u(uint64_t v) { h = mix(h ^ mix(v)); return *this; }
    Hash &b(const void *p, size_t n) { const unsigned char *c = (const unsigned char *)p; uint64_t f = 1469598103934665603ull; for (size_t i = 0; i < n; i++) { f ^= c[i]; f *= 1099511628211ull; } return u(f).u(n); }
    Hash &s(const std::string &x) { return b(x.data(), x.size()); }
};
}
