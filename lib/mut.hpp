// mut.hpp - every alteration of a byte string in the listed classes, and a protobuf-aware mutator
#pragma once
#include "w.hpp"
namespace mut {
typedef std::vector<Bytes> V;
inline void varint(Bytes &o, uint64_t n) { do { o += (char)((n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); }
inline bool rd(const Bytes &s, size_t &i, uint64_t &v) { v = 0; for (int sh = 0; sh < 70; sh += 7) { if (i >= s.size()) return false; uint8_t x = s[i++]; if (sh < 64) v |= (uint64_t)(x & 127) << sh; if (!(x & 128)) return true; } return false; }
struct Field { uint64_t num; int wire; uint64_t val; Bytes data; };
inline bool parse(const Bytes &s, std::vector<Field> &f)
{
    f.clear(); size_t i = 0; if (s.empty()) return false;
    while (i < s.size()) {
        uint64_t t, v; if (!rd(s, i, t)) return false; Field x{ t >> 3, (int)(t & 7), 0, "" }; if (!x.num || x.num > 64) return false;
        if (x.wire == 0) { if (!rd(s, i, v)) return false; x.val = v; } else if (x.wire == 2) { if (!rd(s, i, v) || v > s.size() - i) return false; x.data = s.substr(i, v); i += v; }
        else if (x.wire == 1 || x.wire == 5) { size_t n = x.wire == 1 ? 8 : 4; if (i + n > s.size()) return false; x.data = s.substr(i, n); i += n; } else return false;
        f.push_back(x);
    }
    return true;
}
inline Bytes one(const Field &x) { Bytes o; varint(o, x.num << 3 | x.wire); if (x.wire == 0) varint(o, x.val); else { if (x.wire == 2) varint(o, x.data.size()); o += x.data; } return o; }
inline Bytes all(const std::vector<Field> &f) { Bytes o; for (auto &x : f) o += one(x); return o; }
inline void proto(const Bytes &s, V &out, int depth = 0)
{
    std::vector<Field> f; if (depth > 6 || !parse(s, f)) return; Bytes pre;
    for (size_t i = 0; i < f.size(); i++) {
        Bytes tail; for (size_t j = i + 1; j < f.size(); j++) tail += one(f[j]);
        auto put = [&](const Bytes &mid) { out.push_back(pre + mid + tail); };
        put(""); put(one(f[i]) + one(f[i]));
        for (uint64_t k : { 1, 2, 3, 4, 5, 6, 7, 8, 15, 1000 }) if (k != f[i].num) { Field x = f[i]; x.num = k; put(one(x)); put(one(f[i]) + one(x)); }
        for (int w = 0; w < 8; w++) if (w != f[i].wire) { Bytes t; varint(t, f[i].num << 3 | w); put(t); put(t + Bytes(4, 1)); put(t + Bytes(8, 1)); put(t + f[i].data); }
        if (f[i].wire == 0) for (uint64_t v : { 0ull, 1ull, 2ull, 3ull, 4ull, 5ull, 127ull, 128ull, 255ull, 256ull, 65535ull, 65536ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x8000000000000000ull, ~0ull }) { Field x = f[i]; x.val = v; put(one(x)); put(one(f[i]) + one(x)); }
        if (f[i].wire == 2) {
            Bytes t; varint(t, f[i].num << 3 | 2); uint64_t n = f[i].data.size();
            for (uint64_t v : { (uint64_t)0, n - 1, n + 1, n + tail.size(), n + tail.size() + 1, (uint64_t)0x7fffffff, (uint64_t)0x80000000u, (uint64_t)0xffffffffu, (uint64_t)1 << 32, ~(uint64_t)0, (uint64_t)1 << 63 }) { Bytes x = t; varint(x, v); put(x + f[i].data); }
            for (const Bytes &d : { Bytes(), Bytes(1, 0), Bytes(1, 0xff), Bytes(2, 1), Bytes(3, 'x'), Bytes(16, 7), Bytes(32, 7), Bytes(33, 7), Bytes(200, 7) }) { Field x = f[i]; x.data = d; put(one(x)); }
            for (size_t j = 0; j < f.size(); j++) if (j != i && f[j].wire == 2) { Field x = f[i]; x.data = f[j].data; put(one(x)); }
            V in; proto(f[i].data, in, depth + 1); for (auto &d : in) { Field x = f[i]; x.data = d; put(one(x)); }
            { Field x = f[i]; x.data = f[i].data.substr(0, n / 2); put(one(x)); x.data = f[i].data + Bytes(1, 0); put(one(x)); x.data = s; put(one(x)); x.data = f[i].data + f[i].data; put(one(x)); }
        }
        if (i + 1 < f.size()) { Bytes t2; for (size_t j = i + 2; j < f.size(); j++) t2 += one(f[j]); out.push_back(pre + one(f[i + 1]) + one(f[i]) + t2); }
        pre += one(f[i]);
    }
    out.push_back(s + s);
}
inline void flips(const Bytes &s, V &o) { for (size_t i = 0; i < s.size() * 8; i++) { Bytes x = s; x[i / 8] ^= (char)(1 << (i % 8)); o.push_back(x); } }
inline void cuts(const Bytes &s, V &o) { for (size_t i = 0; i < s.size(); i++) { o.push_back(s.substr(0, i)); if (i) o.push_back(s.substr(i)); } for (int v : { 0, 1, 0x7f, 0x80, 0xff }) for (int n : { 1, 2, 16, 64 }) { o.push_back(s + Bytes(n, (char)v)); o.push_back(Bytes(n, (char)v) + s); } }
inline void subs(const Bytes &s, V &o, bool every) { for (size_t i = 0; i < s.size(); i++) { if (every) for (int v = 0; v < 256; v++) { Bytes x = s; x[i] = (char)v; o.push_back(x); } else for (int v : { 0, 1, 0x7f, 0x80, 0xff }) { Bytes x = s; x[i] = (char)v; o.push_back(x); } Bytes x = s; x.erase(i, 1); o.push_back(x); x = s; x.insert(i, 1, (char)(i * 7)); o.push_back(x); } }
// Everything; a header of up to `skip` bytes may precede a protobuf message
inline V everything(const Bytes &s, bool every, size_t skip = 24)
{
    V o; o.push_back(s); flips(s, o); cuts(s, o); subs(s, o, every);
    for (size_t k = 0; k <= skip && k < s.size(); k++) { V in; std::vector<Field> f; if (parse(s.substr(k), f) && (f.size() > 1 || k == 0)) { proto(s.substr(k), in); for (auto &x : in) o.push_back(s.substr(0, k) + x); } }
    std::set<Bytes> seen; V u; for (auto &x : o) if (seen.insert(x).second) u.push_back(x); return u;
}
}
