// B02: base-32, base-64, hex against independent definitions; fingerprints.
#include <openssl/sha.h>
#include "w.hpp"
static Bytes ref64(const Bytes &d) { static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; Bytes o; for (size_t i = 0; i < d.size(); i += 3) { unsigned v = 0; int n = 0; for (int k = 0; k < 3; k++) { v <<= 8; if (i + k < d.size()) { v |= (uint8_t)d[i + k]; n++; } } for (int k = 0; k < 4; k++) o += k <= n ? A[(v >> (18 - 6 * k)) & 63] : '='; } return o; }
static Bytes refhex(const Bytes &d) { Bytes o; for (unsigned char c : d) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }
static Bytes ref32(const Bytes &d) { static const char A[] = "0123456789ABCDEFGHJKMNPQRSTVWXYZ"; Bytes o; size_t bits = d.size() * 8; for (size_t b = 0; b < bits; b += 5) { int v = 0; for (size_t k = b; k < b + 5; k++) { v <<= 1; if (k < bits) v |= ((uint8_t)d[k / 8] >> (7 - k % 8)) & 1; } o += A[v]; } return o; }

static void roundtrip_one(const Bytes &d)
{
    Exact e(d); mc::step();
    OBuf h(getHexStringFromData(e)), b(getBase64FromData(e)), c(base32_encode(e));
    MC_CHECK(h && b && c, "encode-null", "an encoder refused %zu bytes", d.size());
    MC_CHECK(is(h.get(), refhex(d)), "hex-encode", "hex of %s is %s", hex(d).c_str(), str(h.get()).c_str());
    MC_CHECK(is(b.get(), ref64(d)), "base64-encode", "base64 of %s is %s", hex(d).c_str(), str(b.get()).c_str());
    MC_CHECK(is(c.get(), ref32(d)), "base32-encode", "base32 of %s is %s", hex(d).c_str(), str(c.get()).c_str());
    MC_CHECK(h->bytes[h->length] == 0 && b->bytes[b->length] == 0, "encode-terminated", "hex/base64 string not null terminated");
    MC_CHECK(is(e, d), "encode-modifies", "input changed");
    OBuf h2(getDataFromHexString(h.get())), b2(getDataFromBase64(b.get())), c2(base32_decode(c.get()));
    MC_CHECK(is(h2.get(), d), "hex-roundtrip", "%s comes back as %s", hex(d).c_str(), hex(str(h2.get())).c_str());
    MC_CHECK(is(b2.get(), d), "base64-roundtrip", "%s comes back as %s", hex(d).c_str(), hex(str(b2.get())).c_str());
    MC_CHECK(is(c2.get(), d), "base32-roundtrip", "%s comes back as %s", hex(d).c_str(), hex(str(c2.get())).c_str());
    // the same text held in exactly-sized memory, not followed by a terminator
    Exact hx(str(h.get())), bx(str(b.get())); OBuf h3(getDataFromHexString(hx)), b3(getDataFromBase64(bx));
    MC_CHECK(is(h3.get(), d), "hex-roundtrip-exact", "%s comes back as %s from exactly sized text", hex(d).c_str(), hex(str(h3.get())).c_str());
    MC_CHECK(is(b3.get(), d), "base64-roundtrip-exact", "%s comes back as %s from exactly sized text", hex(d).c_str(), hex(str(b3.get())).c_str());
    // with the terminator counted in the length
    Exact bz(str(b.get()) + Bytes(1, 0)), hz(str(h.get()) + Bytes(1, 0)); OBuf b4(getDataFromBase64(bz)), h4(getDataFromHexString(hz));
    MC_CHECK(is(b4.get(), d) && is(h4.get(), d), "roundtrip-terminated", "terminated text decodes differently");
    mc::nontrivial(mc::Hash().s(d).h);
}
static void enc_all() // every byte string up to two (three) bytes
{
    int n = 1 + mc::choose(mc::tier(2, 3)); Bytes d; int a = mc::choose(256);
    if (n == 1) { roundtrip_one(Bytes(1, (char)a)); return; }
    int lo = mc::choose(16) * 16; // 16 x 16 blocks keep the task tree small
    for (int b = lo; b < lo + 16; b++) { if (n == 2) roundtrip_one(Bytes{(char)a, (char)b}); else for (int c = 0; c < 256; c++) roundtrip_one(Bytes{(char)a, (char)b, (char)c}); }
}
static void enc_len() // every length, with every single-bit-position pattern and a few whole patterns
{
    size_t n = 1 + mc::choose(mc::tier(48, 300)); size_t bits = n * 8; int k = mc::choose((int)bits + 3);
    Bytes d = k == (int)bits ? Bytes(n, (char)0xff) : k == (int)bits + 1 ? pat(n) : k == (int)bits + 2 ? Bytes(n, 0) : Bytes(n, 0); if (k < (int)bits) d[k / 8] |= (char)(0x80 >> (k % 8)); roundtrip_one(d);
    if (k == 0) for (int base = 0; base < 5; base++) { Bytes q = pat(n, base * 31 + 5); roundtrip_one(q); }
}
static void enc_long() // long inputs: whole patterns, and every byte of the last group told apart
{
    size_t n = 49 + mc::choose(mc::tier(1000, 5000)); for (int base = 0; base < mc::tier(3, 8); base++) roundtrip_one(pat(n, base * 37 + 11)); Bytes d(n, (char)0xff); roundtrip_one(d); for (size_t i = 0; i < 6; i++) { d[n - 1 - i] = 0; roundtrip_one(d); d[n - 1 - i] = (char)0xff; d[n / 2 + i] = 1; roundtrip_one(d); }
}
static void decoders(const Bytes &t)
{
    Exact e(t); mc::step();
    for (int i = 0; i < 3; i++) {
        OBuf r(i == 0 ? getDataFromHexString(e) : i == 1 ? getDataFromBase64(e) : base32_decode(e));
        if (r) { volatile unsigned s = 0; for (size_t k = 0; k < r->length; k++) s += r->bytes[k]; mc::outcome(i == 0 ? "hex text decoded" : i == 1 ? "base64 text decoded" : "base32 text decoded");
            if (i == 0) MC_CHECK(r->length <= t.size() / 2, "hex-length", "decoded %zu bytes from %zu characters", r->length, t.size());
            if (i == 1) MC_CHECK(r->length <= (t.size() * 3 + 3) / 4, "base64-length", "decoded %zu bytes from %zu characters", r->length, t.size());
            if (i == 2) MC_CHECK(r->length <= t.size() * 5 / 8, "base32-length", "decoded %zu bytes from %zu characters", r->length, t.size()); }
        else mc::outcome(i == 0 ? "hex text refused" : i == 1 ? "base64 text refused" : "base32 text refused");
        // refusing what can have no meaning in the encoding
        if (i == 2) { bool bad = false; for (char c : t) bad |= c == 0 || !strchr("0123456789ABCDEFGHJKMNPQRSTVWXYZ", c); MC_CHECK(!(bad && r), "base32-invalid-accepted", "text %s accepted as base32", hex(t).c_str()); }
        if (i == 1) { bool bad = false; for (char c : t.substr(0, t.find('\0'))) bad |= (unsigned char)c >= 128 || (!isalnum((unsigned char)c) && !strchr("+/= \t\n\r\f\v", c)); MC_CHECK(!(bad && r), "base64-invalid-accepted", "text %s accepted as base64", hex(t).c_str()); }
    }
    MC_CHECK(is(e, t), "decode-modifies", "input changed");
}
static void dec_all() // arbitrary text: every string over a class alphabet
{
    static const unsigned char AL[] = { 0, '0', '9', 'A', 'Z', 'f', 'g', '=', '+', '/', ' ', '\n', 0x7f, 0x80, 0xff, 'U' };
    int depth = mc::tier(4, 5); int n = mc::choose(depth + 1); Bytes t; for (int i = 0; i < n; i++) t += (char)AL[mc::choose(16)];
    if (n == 0) return; decoders(t); mc::nontrivial(mc::Hash().s(t).h);
}
static void dec_bytes() { int a = mc::choose(256), pos = mc::choose(9); Bytes t = "QUJDREVG"; if (pos < 8) t[pos] = (char)a; else t = Bytes(1, (char)a); decoders(t); decoders(t + "="); decoders(t + "=="); decoders(t.substr(0, pos) + (char)a); }
// every one- and two-character substitution must not decode to the same bytes as the original (unambiguity of canonical text)
static void unambiguous()
{
    size_t n = 1 + mc::choose(10); Bytes d = pat(n, 77); int enc = mc::choose(3); Bytes t = enc == 0 ? refhex(d) : enc == 1 ? ref64(d) : ref32(d); size_t pos = mc::choose((int)t.size()); 
    for (int c = 1; c < 128; c++) { Bytes u = t; u[pos] = (char)c; if (u == t) continue; Exact e(u); OBuf r(enc == 0 ? getDataFromHexString(e) : enc == 1 ? getDataFromBase64(e) : base32_decode(e)); mc::step();
        if (r && is(r.get(), d)) { // two texts with one meaning: legal only in bits the encoding does not carry, letter case of hex, or skipped blanks
            bool legal = enc == 0 ? tolower(u[pos]) == t[pos] : pos + 1 >= t.size() - (enc == 1 ? 2 : 0) || u[pos] == '='; if (enc == 0 && !isxdigit(c)) legal = true; // strtol leniency
            MC_CHECK(legal, "ambiguous", "both %s and %s decode to %s", t.c_str(), u.c_str(), hex(d).c_str()); } }
}

// ---- fingerprints -------------------------------------------------------------------------------
static const wickr_crypto_engine_t E = real_engine();
static std::vector<wickr_ec_key_t *> K, KP; static std::vector<Bytes> IDS = { "a", "b", "ab", Bytes(1, 0), Bytes("a\0", 2), Bytes("\0a", 2), Bytes(32, 'x'), Bytes(33, 'x'), Bytes(128, 'y') };
static Bytes fp(const wickr_ec_key_t *k, const Bytes &id) { Exact e(id); OFp f(wickr_fingerprint_gen(E, k, e, WICKR_FINGERPRINT_TYPE_SHA512)); MC_CHECK((bool)f, "fingerprint-null", "no fingerprint for a valid key"); return str(f->data); }
static void fingerprints()
{
    int i = mc::choose((int)(K.size() * IDS.size())), j = mc::choose((int)(K.size() * IDS.size())); size_t ki = i / IDS.size(), kj = j / IDS.size(); const Bytes &a = IDS[i % IDS.size()], &b = IDS[j % IDS.size()]; mc::step();
    mc::nontrivial(mc::Hash().u(i).u(j).h);
    Bytes fa = fp(K[ki], a), fb = fp(K[kj], b); MC_CHECK(fa.size() == 64, "fingerprint-size", "%zu bytes", fa.size());
    MC_CHECK((fa == fb) == (i == j), "fingerprint-depends", "fingerprints of (key %zu, id %s) and (key %zu, id %s) are %s", ki, hex(a).c_str(), kj, hex(b).c_str(), fa == fb ? "equal" : "different");
    MC_CHECK(fa == fp(KP[ki], a), "fingerprint-public-part", "fingerprint differs between the key pair and its public part");
    Exact ea(fa), eb(fb); OFp x(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, wickr_buffer_copy(ea))), y(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, wickr_buffer_copy(eb)));
    OFp xy(wickr_fingerprint_gen_bilateral(E, x.get(), y.get(), WICKR_FINGERPRINT_TYPE_SHA512)), yx(wickr_fingerprint_gen_bilateral(E, y.get(), x.get(), WICKR_FINGERPRINT_TYPE_SHA512));
    MC_CHECK((bool)xy == (bool)yx && (!xy || same(xy->data, yx->data)), "bilateral-symmetric", "the two sides compute different joint fingerprints");
    if (i != j) { MC_CHECK((bool)xy, "bilateral-null", "no joint fingerprint for different identities");
        int k = mc::choose((int)(K.size() * IDS.size())); Bytes fc = fp(K[k / IDS.size()], IDS[k % IDS.size()]); Exact ec(fc); OFp z(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, wickr_buffer_copy(ec)));
        OFp xz(wickr_fingerprint_gen_bilateral(E, x.get(), z.get(), WICKR_FINGERPRINT_TYPE_SHA512)), yz(wickr_fingerprint_gen_bilateral(E, y.get(), z.get(), WICKR_FINGERPRINT_TYPE_SHA512));
        if (k != i && k != j) MC_CHECK(xz && yz && !same(xy->data, xz->data) && !same(xy->data, yz->data) && !same(xz->data, yz->data), "bilateral-distinct", "two pairs of identities share a joint fingerprint");
        OFp cx(wickr_fingerprint_copy(xy.get())); MC_CHECK(cx && same(cx->data, xy->data) && cx->type == xy->type && cx->data->bytes != xy->data->bytes, "fingerprint-copy", "copy differs"); }
    for (int f = 0; f < 2; f++) { OBuf l(f ? wickr_fingerprint_get_hex(x.get(), FINGERPRINT_OUTPUT_LONG) : wickr_fingerprint_get_b32(x.get(), FINGERPRINT_OUTPUT_LONG)), s(f ? wickr_fingerprint_get_hex(x.get(), FINGERPRINT_OUTPUT_SHORT) : wickr_fingerprint_get_b32(x.get(), FINGERPRINT_OUTPUT_SHORT));
        Bytes ref = f ? refhex(fa) : ref32(fa); MC_CHECK(is(l.get(), ref), "fingerprint-text", "long form is %s", str(l.get()).c_str()); MC_CHECK(is(s.get(), ref.substr(0, ref.size() / 2)), "fingerprint-text-short", "short form is %s", str(s.get()).c_str()); MC_CHECK(s->bytes[s->length] == 0, "fingerprint-text-terminated", "short form not terminated"); if (f) MC_CHECK(l->bytes[l->length] == 0, "fingerprint-text-terminated", "long hex form not terminated"); }
    mc::outcome(i == j ? "same identity" : "different identities");
}
// bilateral over arbitrary fingerprint data: symmetric, and the first difference at every position and direction
static void bilateral_order()
{
    int pos = mc::choose(64), dir = mc::choose(2), hi = mc::choose(3); Bytes a = pat(64, 5), b = a; static const unsigned char V[3][2] = { { 1, 2 }, { 0x7f, 0x80 }, { 0, 0xff } }; a[pos] = V[hi][dir]; b[pos] = V[hi][!dir]; for (int i = pos + 1; i < 64; i++) b[i] = a[i] ^ (char)mc::mix(i);
    OFp x(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(a))), y(wickr_fingerprint_create(WICKR_FINGERPRINT_TYPE_SHA512, mk(b))); mc::step();
    OFp xy(wickr_fingerprint_gen_bilateral(E, x.get(), y.get(), WICKR_FINGERPRINT_TYPE_SHA512)), yx(wickr_fingerprint_gen_bilateral(E, y.get(), x.get(), WICKR_FINGERPRINT_TYPE_SHA512));
    MC_CHECK(xy && yx && same(xy->data, yx->data), "bilateral-symmetric", "joint fingerprint depends on the side when the first difference is at byte %d (values %02x/%02x)", pos, (uint8_t)a[pos], (uint8_t)b[pos]); mc::state(mc::Hash().s(str(xy->data)).h);
}
// every byte of an identifier and of a key enters the fingerprint, whatever their length
static Bytes sha512(const Bytes &b) { unsigned char o[64]; SHA512((const unsigned char *)b.data(), b.size(), o); return Bytes((char *)o, 64); }
static void fingerprint_lengths()
{
    static const std::vector<size_t> big = { 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000, 1 << 20 }; int c = mc::choose(330 + (int)big.size(), "length"); size_t n = c < 330 ? c + 1 : big[c - 330]; int k = mc::choose((int)K.size(), "key"); if (k && n % 10) mc::prune(); Bytes id = pat(n, 9), f = fp(K[k], id); OBuf pub(wickr_ec_key_get_pubdata_fixed_len(K[k])); mc::step();
    MC_CHECK(f == sha512(id + str(pub.get())), "fingerprint-definition", "identifier of %zu bytes: not the digest of the identifier and the key", n);
    auto alter = [&](size_t i) { Bytes o = id; o[i] ^= 1; mc::step(); mc::nontrivial(mc::Hash().u(n).u(i).u(k).h); MC_CHECK(fp(K[k], o) != f, "fingerprint-depends", "identifiers of %zu bytes that differ in byte %zu have one fingerprint", n, i); };
    if (n <= 330) for (size_t i = 0; i < n; i++) alter(i); else for (size_t i : { (size_t)0, (size_t)255, (size_t)256, (size_t)300, n / 2, n - 256, n - 2, n - 1 }) alter(i);
    MC_CHECK(fp(K[k], id + "x") != f && (n == 1 || fp(K[k], id.substr(0, n - 1)) != f), "fingerprint-depends", "identifiers of %zu bytes and one more or less have one fingerprint", n); mc::outcome("ok");
}
static void nulls()
{
    int k = mc::choose(7); Bytes z; wickr_buffer_t e = { 0, (uint8_t *)malloc(1) };
    if (k == 0) MC_CHECK(!getHexStringFromData(nullptr) && !getDataFromHexString(nullptr) && !getBase64FromData(nullptr) && !getDataFromBase64(nullptr) && !base32_encode(nullptr) && !base32_decode(nullptr), "null-input", "NULL accepted");
    OBuf r; if (k == 1) r.reset(getHexStringFromData(&e)); if (k == 2) r.reset(getDataFromHexString(&e)); if (k == 3) r.reset(getBase64FromData(&e)); if (k == 4) r.reset(getDataFromBase64(&e)); if (k == 5) r.reset(base32_encode(&e)); if (k == 6) r.reset(base32_decode(&e));
    if (r) MC_CHECK(r->length == 0, "empty-input", "an empty input gives %zu bytes", r->length); ::free(e.bytes);
}
int main(int c, char **v)
{
    mc::init("B02", "model_checking", "a violation is text that differs from the reference encoding, a round trip that does not return the input, an access outside the input, or a fingerprint equality/inequality that contradicts the inputs", c, v); rng_install(); rng_seed(2);
    for (int i = 0; i < 3; i++) { K.push_back(E.wickr_crypto_engine_ec_rand_key(EC_CURVE_NIST_P521)); KP.push_back(E.wickr_crypto_engine_ec_key_import(K.back()->pub_data, false)); }
    mc::assume("SHA-512 does not collide on the enumerated inputs");
    mc::part("encode-all-short", enc_all); mc::part("encode-every-length", enc_len); mc::part("encode-long", enc_long); mc::part("decode-class-strings", dec_all); mc::part("decode-every-byte", dec_bytes); mc::part("unambiguous", unambiguous); mc::part("nulls", nulls);
    mc::part("fingerprints", fingerprints); mc::part("fingerprint-lengths", fingerprint_lengths); mc::part("bilateral-order", bilateral_order); return mc::finish();
}
