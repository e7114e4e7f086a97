// gate.hpp - makes one call of the primitives, of OpenSSL or of the random source fail (the check must carry MC_OSSLWRAP: the functions of OpenSSL and the passphrase KDFs go through ossl_gate)
#pragma once
#include "ops.hpp"
#include <openssl/err.h>
extern "C" { long ossl_value; extern const char *ossl_names[]; int ossl_gate(int i); extern int kdf_shim_inside; }
static bool ossl_on; static int64_t ossl_count, ossl_fail1 = -1, ossl_fail2 = -1; static int ossl_variant; static std::vector<int> ossl_log;
// how a function reports failure, besides 0 / NULL
static bool negative_only(const std::string &n) { return n == "BN_bn2binpad" || n == "libscrypt_scrypt"; }
static bool negative_too(const std::string &n) { return n == "RAND_bytes" || n == "EVP_DigestVerifyFinal" || n == "EVP_DigestVerifyInit" || n == "i2d_ECDSA_SIG" || n.rfind("EVP_PKEY_derive", 0) == 0 || n.rfind("EVP_PKEY_CTX_set", 0) == 0 || n.rfind("EVP_PKEY_CTX_add1", 0) == 0; }
int ossl_gate(int i) { if (!ossl_on || kdf_shim_inside) return 0; int64_t k = ossl_count++; ossl_log.push_back(i); if (k != ossl_fail1 && k != ossl_fail2) return 0; ossl_value = negative_only(ossl_names[i]) || (ossl_variant && negative_too(ossl_names[i])) ? -1 : 0; return 1; }

enum Mode { PRIMS, RANDOM, OPENSSL };
static bool counting; static int64_t calls, fail1 = -1, fail2 = -1; static std::vector<int> kinds;
static void arm(Mode m, int64_t a, int64_t b)      // from here on, count; the calls a and b fail
{
    calls = 0; fail1 = a; fail2 = b; kinds.clear(); ossl_count = 0; ossl_fail1 = a; ossl_fail2 = b; ossl_log.clear();
    if (m == PRIMS) counting = true; else if (m == OPENSSL) ossl_on = true; else { int64_t at = (int64_t)rng_requests; rng_fail_at = a >= 0 ? at + a : -1; calls = -at; }
}
static int64_t disarm(Mode m) { counting = ossl_on = false; rng_fail_at = -1; fail1 = fail2 = ossl_fail1 = ossl_fail2 = -1; return m == PRIMS ? calls : m == OPENSSL ? ossl_count : calls + (int64_t)rng_requests; }
static void gate_init() { spy.before = [](int kind) { if (!counting) return true; int64_t k = calls++; kinds.push_back(kind); return k != fail1 && k != fail2; }; }
