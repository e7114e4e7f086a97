// w.hpp - helpers shared by the checks: buffers, deterministic randomness, tracked allocation, engines.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <cstdbool>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include "mc.hpp"
extern "C" {
#include "memory.h"
#include "buffer.h"
#include "array.h"
#include "b32.h"
#include "util.h"
#include "cipher.h"
#include "crypto_engine.h"
#include "devinfo.h"
#include "digest.h"
#include "ecdh_cipher_ctx.h"
#include "ecdsa.h"
#include "eckey.h"
#include "encoder_result.h"
#include "ephemeral_keypair.h"
#include "fingerprint.h"
#include "identity.h"
#include "kdf.h"
#include "key_exchange.h"
#include "node.h"
#include "openssl_file_suite.h"
#include "openssl_suite.h"
#include "packet_meta.h"
#include "payload.h"
#include "protocol.h"
#include "root_keys.h"
#include "storage.h"
#include "stream_ctx.h"
#include "stream_iv.h"
#include "stream_key.h"
#include "transport_ctx.h"
#include "transport_error.h"
#include "transport_handshake.h"
#include "transport_packet.h"
#include "transport_root_key.h"
#include "wickr_ctx.h"
}

typedef std::string Bytes;
typedef const wickr_buffer_t *CB;
typedef wickr_buffer_t *MB;

inline MB mk(const Bytes &s) { return wickr_buffer_create((const uint8_t *)s.data(), s.size()); }
inline Bytes str(CB b) { return b && b->bytes ? Bytes((const char *)b->bytes, b->length) : Bytes(); }
inline bool is(CB b, const Bytes &s) { return b && b->length == s.size() && (s.empty() || !memcmp(b->bytes, s.data(), s.size())); }
inline bool same(CB a, CB b) { return (!a && !b) || (a && b && a->length == b->length && (a->length == 0 || !memcmp(a->bytes, b->bytes, a->length))); }
inline void obuf_free(wickr_buffer_t **b) { if (b && *b && (*b)->bytes && (*b)->length) memset((*b)->bytes, 0, (*b)->length); wickr_buffer_destroy(b); }     // a caller that takes care of its own secrets
inline Bytes take(MB b) { Bytes s = str(b); obuf_free(&b); return s; }       // copy out and destroy
Bytes hex(const Bytes &s, size_t max = 48);
inline thread_local int pat_salt;        // another value: other patterns, other file names
inline Bytes pat(size_t n, int salt = 0) { salt += pat_salt * 7919; Bytes s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)(mc::mix(i * 1000003 + salt) & 0xff); return s; }
inline wickr_buffer_t view(const Bytes &s) { wickr_buffer_t b; b.length = s.size(); b.bytes = (uint8_t *)s.data(); return b; }

// A heap copy of exactly the given bytes (so that the address sanitizer sees any access past the end), as a stack buffer
struct Exact { wickr_buffer_t b; Exact(const Bytes &s) { b.length = s.size(); b.bytes = new uint8_t[s.size() ? s.size() : 1]; memcpy(b.bytes, s.data(), s.size()); if (s.empty()) b.length = 0; } ~Exact() { delete[] b.bytes; } Exact(const Exact &) = delete; operator CB() const { return &b; } };

// ---- RAII over destroy functions -----------------------------------------------------------
template <class T, void (*D)(T **)> struct Own {
    T *p; Own(T *x = nullptr) : p(x) {} ~Own() { if (p) D(&p); }
    Own(const Own &) = delete; Own &operator=(const Own &) = delete;
    Own(Own &&o) : p(o.p) { o.p = nullptr; } Own &operator=(Own &&o) { if (p) D(&p); p = o.p; o.p = nullptr; return *this; }
    void reset(T *x = nullptr) { if (p) D(&p); p = x; }
    T *release() { T *x = p; p = nullptr; return x; } T *operator->() const { return p; } explicit operator bool() const { return p != nullptr; } T *get() const { return p; }
};
typedef Own<wickr_buffer_t, obuf_free> OBuf;
typedef Own<wickr_cipher_result_t, wickr_cipher_result_destroy> OCipher;
typedef Own<wickr_cipher_key_t, wickr_cipher_key_destroy> OKey;
typedef Own<wickr_ec_key_t, wickr_ec_key_destroy> OEc;
typedef Own<wickr_ecdsa_result_t, wickr_ecdsa_result_destroy> OSig;
typedef Own<wickr_identity_t, wickr_identity_destroy> OId;
typedef Own<wickr_identity_chain_t, wickr_identity_chain_destroy> OChain;
typedef Own<wickr_node_t, wickr_node_destroy> ONode;
typedef Own<wickr_ephemeral_keypair_t, wickr_ephemeral_keypair_destroy> OEph;
typedef Own<wickr_packet_t, wickr_packet_destroy> OPacket;
typedef Own<wickr_parse_result_t, wickr_parse_result_destroy> OParse;
typedef Own<wickr_decode_result_t, wickr_decode_result_destroy> ODecode;
typedef Own<wickr_payload_t, wickr_payload_destroy> OPayload;
typedef Own<wickr_ctx_t, wickr_ctx_destroy> OCtx;
typedef Own<wickr_ctx_packet_t, wickr_ctx_packet_destroy> OCtxPacket;
typedef Own<wickr_ctx_gen_result_t, wickr_ctx_gen_result_destroy> OGen;
typedef Own<wickr_encoder_result_t, wickr_encoder_result_destroy> OEnc;
typedef Own<wickr_dev_info_t, wickr_dev_info_destroy> ODev;
typedef Own<wickr_root_keys_t, wickr_root_keys_destroy> ORoot;
typedef Own<wickr_storage_keys_t, wickr_storage_keys_destroy> OStor;
typedef Own<wickr_stream_key_t, wickr_stream_key_destroy> OSKey;
typedef Own<wickr_stream_ctx_t, wickr_stream_ctx_destroy> OStream;
typedef Own<wickr_kdf_result_t, wickr_kdf_result_destroy> OKdf;
typedef Own<wickr_kdf_meta_t, wickr_kdf_meta_destroy> OKdfMeta;
typedef Own<wickr_ecdh_cipher_ctx_t, wickr_ecdh_cipher_ctx_destroy> OEcdh;
typedef Own<wickr_key_exchange_t, wickr_key_exchange_destroy> OKex;
typedef Own<wickr_key_exchange_set_t, wickr_key_exchange_set_destroy> OKexSet;
typedef Own<wickr_transport_ctx_t, wickr_transport_ctx_destroy> OTrans;
typedef Own<wickr_transport_packet_t, wickr_transport_packet_destroy> OTPkt;
typedef Own<wickr_transport_handshake_t, wickr_transport_handshake_destroy> OHs;
typedef Own<wickr_fingerprint_t, wickr_fingerprint_destroy> OFp;
typedef Own<wickr_array_t, wickr_node_array_destroy> ONodes;

// ---- deterministic randomness (installed as the OpenSSL RAND method) -------------------------
struct Rng { uint64_t stream = 0, ctr = 0; };
extern thread_local Rng *rng_own;       // a thread with a source of its own
void rng_install();
void rng_seed(uint64_t stream);
extern uint64_t rng_requests;           // number of requests since rng_seed
extern int64_t rng_fail_at;             // fail the request with this index (-1: never)

// ---- tracked allocation: every malloc/free made by objects linked into the check -----------
// (the library's, through --wrap; shared libraries keep their own)
namespace trk {
extern bool on;                         // bookkeeping enabled
extern int64_t count, fail_at;          // allocation requests made since reset; the one that fails (-1: none)
extern int64_t fail_at2;
extern void (*on_free)(void *p, size_t n);
void reset();                           // forget all blocks, counters to zero
size_t live();                          // blocks allocated since reset and not released
std::string describe_live();
void each_live(const std::function<void(void *, size_t)> &f);
}

int64_t ossl_blocks();                  // blocks OpenSSL holds

// ---- passphrase KDF stand-in (see DESIGN.md) -------------------------------------------------
extern int &kdf_real;                   // use the real scrypt / crypt

// ---- engines ---------------------------------------------------------------------------------
wickr_crypto_engine_t real_engine();
wickr_crypto_engine_t toy_engine();     // ideal, fast primitives with the same interface
enum EngineCall { EC_RANDOM, EC_KEYRAND, EC_ENC, EC_DEC, EC_FENC, EC_FDEC, EC_OFENC, EC_OFDEC, EC_DIGEST, EC_DIGESTF, EC_ECRAND, EC_ECIMPORT, EC_SIGN, EC_VERIFY, EC_TORAW, EC_FROMRAW, EC_DH, EC_HMAC, EC_HMACV, EC_KDF, EC_KDFM, EC_N };
extern const char *engine_call_name[EC_N];
// spy engine: delegates to `base`, calling spy.before first (return false: the call fails)
struct Spy {
    wickr_crypto_engine_t base;
    std::function<bool(int kind)> before;
    std::function<void(const wickr_cipher_key_t *key, const wickr_cipher_result_t *res, const wickr_buffer_t *pt)> encrypted;
    std::function<void(Bytes &pt)> plain; // may replace what is about to be encrypted (a peer that encrypts nonsense)
    std::function<void()> yield_point;  // for the scheduler: called before every primitive
    uint64_t calls[EC_N];
};
extern Spy spy;
wickr_crypto_engine_t spy_engine(const wickr_crypto_engine_t &base);

// ---- builders ----------------------------------------------------------------------------------
wickr_identity_chain_t *mk_chain(const wickr_crypto_engine_t &e, const Bytes &user, const Bytes &dev);
wickr_node_t *mk_node(const wickr_crypto_engine_t &e, const wickr_identity_chain_t *chain, const Bytes &dev_id, uint64_t key_id);
wickr_identity_chain_t *pub_chain(const wickr_crypto_engine_t &e, const wickr_identity_chain_t *c); // via serialise/parse
inline MB id32(char c) { return mk(Bytes(32, c)); }
inline Bytes B(const char *s) { return Bytes(s); }
Bytes read_file(const std::string &p, bool *exists = nullptr);
void write_file(const std::string &p, const Bytes &s);
