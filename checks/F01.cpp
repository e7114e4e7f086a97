// F01: encrypted files decrypt to the original and reject any tampering
#include "w.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
static const wickr_cipher_t CI[2] = { CIPHER_AES256_GCM, CIPHER_AES256_CTR };
static OKey mkkey(int c, int salt) { return OKey(wickr_cipher_key_create(CI[c], mk(pat(32, salt)))); }
struct Dir { std::string d; Dir() { d = mc::scratch() + "/d"; clean(); mkdir(d.c_str(), 0700); } ~Dir() { clean(); } std::string operator/(const std::string &f) const { return d + "/" + f; }
    std::set<std::string> list() const { std::set<std::string> s; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(p); } return s; }
    void clean() { for (auto &f : list()) { if (unlink((d + "/" + f).c_str())) rmdir((d + "/" + f).c_str()); } rmdir(d.c_str()); } };
static Bytes encfile(const Dir &d, const wickr_cipher_key_t *k, const Bytes &pt) { write_file(d / "p", pt); bool ok = openssl_aes256_file_encrypt(k, (d / "p").c_str(), (d / "c").c_str()); MC_CHECK(ok, "encrypt-failed", "file of %zu bytes: encryption failed", pt.size()); return read_file(d / "c"); }
// decryption that has to be refused, with and without an old destination
static void refused(const Dir &d, const wickr_cipher_key_t *k, const Bytes &ct, bool only, const char *what, int where)
{
    write_file(d / "c", ct); bool old = where & 1; Bytes prev = "old contents of the destination"; if (old) write_file(d / "out", prev); else unlink((d / "out").c_str()); auto before = d.list(); mc::step();
    bool ok = openssl_aes256_file_decrypt(k, (d / "c").c_str(), (d / "out").c_str(), only); MC_CHECK(!ok, "tampering-accepted", "%s at %d: decryption reports success", what, where);
    bool ex; Bytes now = read_file(d / "out", &ex); MC_CHECK(ex == old && (!old || now == prev), "destination-touched", "%s at %d: refused, but the destination changed", what, where); MC_CHECK(d.list() == before, "left-over", "%s at %d: refused, but files were left behind or removed", what, where); MC_CHECK(read_file(d / "c") == ct, "source-touched", "source changed");
}
int main(int argc, char **argv)
{
    mc::init("F01", "model_checking", "every file length of windows around zero and every internal block boundary for both ciphers through both interfaces, every truncation point, every altered byte, every exchange of blocks and every wrong key, cipher and mode on files of boundary sizes, with and without an existing destination", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); });
    mc::assume("a file enciphered without authentication cannot detect altered contents; only alterations of its cipher identifier and cuts into its header are required to be refused");
    std::vector<int> lens; for (int i = 0; i <= 34; i++) lens.push_back(i); for (int c : { 64, 256, 4096 - 29, 4096 - 17, 4096, 8192 - 29, 8192, 12288, 16384, 65536 }) for (int e = -2; e <= 2; e++) lens.push_back(c + e); if (mc::thorough()) for (int i = 4030; i < 4160; i++) lens.push_back(i);
    mc::part("round-trip", [&] {
        int c = mc::choose(2, "cipher"), n = mc::pick(lens, "length"), api = mc::choose(2, "interface"), dest = mc::choose(3, "destination"); Bytes pt = pat(n, 1); OKey k = mkkey(c, 4); Dir d; write_file(d / "p", pt); if (dest == 1) { write_file(d / "c", "old"); write_file(d / "out", "old"); } if (dest == 2) { write_file(d / "c", pat(n + 9000)); write_file(d / "out", pat(n + 9000)); }
        if (api == 0) MC_CHECK(openssl_aes256_file_encrypt(k.get(), (d / "p").c_str(), (d / "c").c_str()), "encrypt-failed", "cipher %d length %d", c, n);
        else { FILE *in = fopen((d / "p").c_str(), "rb"), *out = fopen((d / "c").c_str(), "wb"); bool ok = openssl_encrypt_file(in, k.get(), out); fclose(in); fclose(out); MC_CHECK(ok, "encrypt-failed", "cipher %d length %d", c, n); }
        mc::step(); Bytes ct = read_file(d / "c"); MC_CHECK(read_file(d / "p") == pt, "source-touched", "source changed"); MC_CHECK(ct.size() == (size_t)n + 1 + CI[c].iv_len + CI[c].auth_tag_len && ct[0] == (char)c, "format", "cipher %d length %d: encrypted file has %zu bytes, first byte %d", c, n, ct.size(), ct[0]);
        if (n) { Exact b(ct); OCipher r(wickr_cipher_result_from_buffer(b)); OBuf q(r ? openssl_aes256_decrypt(r.get(), nullptr, k.get(), false) : nullptr); MC_CHECK(is(q.get(), pt), "format", "cipher %d length %d: file is not the serialised encryption of its contents", c, n); if (n > 20) MC_CHECK(ct.find(pt.substr(0, 16)) == Bytes::npos && ct.find(pt.substr(n - 16)) == Bytes::npos, "plaintext", "plaintext in the encrypted file"); }
        for (int only = 1; only >= 0; only--) { bool ok; if (only && c == 1) { refused(d, k.get(), ct, true, "unauthenticated file", dest); continue; }
            if (api == 0) ok = openssl_aes256_file_decrypt(k.get(), (d / "c").c_str(), (d / "out").c_str(), only); else { FILE *in = fopen((d / "c").c_str(), "rb"), *out = fopen((d / "out").c_str(), "wb"); ok = openssl_decrypt_file(in, k.get(), out, only); fclose(in); fclose(out); }
            mc::step(); MC_CHECK(ok && read_file(d / "out") == pt, "round-trip", "cipher %d length %d: decryption %s", c, n, ok ? "gives other contents" : "fails"); }
        MC_CHECK(d.list() == (std::set<std::string>{ "p", "c", "out" }), "left-over", "files left behind"); 
        // again: another nonce
        Bytes c2 = encfile(d, k.get(), pt); MC_CHECK(c2.substr(1, CI[c].iv_len) != ct.substr(1, CI[c].iv_len), "nonce-repeated", "same nonce twice"); mc::outcome(c ? "unauthenticated" : "authenticated"); mc::state(mc::Hash().u(c).u(n).u(api).u(dest).h);
    });
    mc::part("long", [&] { // large files: contents, and one altered byte anywhere
        static const std::vector<int> ns = mc::thorough() ? std::vector<int>{ 131071, 131072, 131073, 1 << 18, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 5000000, (1 << 24) + 1 } : std::vector<int>{ 65536 + 4096, 131071, 131072, 131073, 1 << 18, (1 << 20) - 1, 1 << 20, (1 << 20) + 1 }; int c = mc::choose(2, "cipher"), n = mc::pick(ns, "length"); Bytes pt = pat(n, 1); OKey k = mkkey(c, 4); Dir d; write_file(d / "p", pt);
        MC_CHECK(openssl_aes256_file_encrypt(k.get(), (d / "p").c_str(), (d / "c").c_str()), "encrypt-failed", "cipher %d length %d", c, n); mc::step(); Bytes ct = read_file(d / "c"); bool ok = openssl_aes256_file_decrypt(k.get(), (d / "c").c_str(), (d / "out").c_str(), c == 0); MC_CHECK(ok && read_file(d / "out") == pt, "round-trip", "cipher %d length %d: decryption %s", c, n, ok ? "gives other contents" : "fails");
        if (c == 0) for (size_t at : { (size_t)0, (size_t)5, (size_t)20, (size_t)29, (size_t)4096, (size_t)65535, (size_t)65536, (size_t)n / 2, (size_t)n + 28 }) { Bytes x = ct; x[at] ^= 2; refused(d, k.get(), x, true, "large file altered", (int)at); } if (c == 0) for (size_t cut : { (size_t)n, (size_t)n + 28, (size_t)n / 2, (size_t)4096 + 29 }) refused(d, k.get(), ct.substr(0, cut), true, "large file cut", (int)cut);
        mc::outcome(c ? "unauthenticated" : "authenticated"); mc::state(mc::Hash().u(c).u(n).h); });
    mc::part("in-place", [&] { int c = mc::choose(2, "cipher"), n = mc::pick(std::vector<int>{ 0, 1, 100, 4096, 9000 }, "length"); Bytes pt = pat(n, 1); OKey k = mkkey(c, 4); Dir d; write_file(d / "p", pt); std::string p = d / "p"; bool a = openssl_aes256_file_encrypt(k.get(), p.c_str(), p.c_str()); Bytes ct = read_file(p); bool b = openssl_aes256_file_decrypt(k.get(), p.c_str(), p.c_str(), !c); mc::step(2); MC_CHECK(a && b && read_file(p) == pt && (int)ct.size() > n, "in-place", "length %d", n); mc::outcome("ok"); mc::state(mc::Hash().u(c).u(n).h); });
    std::vector<int> tl = { 0, 1, 16, 20, 4095, 4096, 4097, 8192, 8200 };
    mc::part("cut", [&] { int n = mc::pick(tl, "length"), at = mc::choose(n + 29, "cut"); OKey k = mkkey(0, 4); Dir d; Bytes ct = encfile(d, k.get(), pat(n, 1)); refused(d, k.get(), ct.substr(0, at), at & 2, "cut", at); if (at) refused(d, k.get(), ct.substr(at), at & 2, "head cut", at); mc::outcome("refused"); mc::state(mc::Hash().u(n).u(at).h); });
    mc::part("altered", [&] { int n = mc::pick(tl, "length"), at = mc::choose(n + 29, "byte"); OKey k = mkkey(0, 4); Dir d; Bytes ct = encfile(d, k.get(), pat(n, 1)); for (int bit = 0; bit < 8; bit++) { if (n > 100 && at > 40 && bit != at % 8) continue; Bytes x = ct; x[at] ^= 1 << bit; refused(d, k.get(), x, bit & 1, "altered byte", at); } if (at == 0) for (int m = 1; m < 256; m++) { Bytes x = ct; x[0] = (char)m; for (int only = 0; only < 2; only++) refused(d, k.get(), x, only, "cipher identifier", m); } mc::outcome("refused"); mc::state(mc::Hash().u(n).u(at).h); });
    mc::part("extended", [&] { int n = mc::pick(tl, "length"), e = mc::choose(mc::tier(70, 300), "extra"); if (e > 60) e = 4030 + e; OKey k = mkkey(0, 4); Dir d; Bytes ct = encfile(d, k.get(), pat(n, 1)); refused(d, k.get(), ct + pat(e + 1, 3), e & 1, "extended", e); Bytes x = ct; x.insert(29 + (n ? e % (n + 1) : 0), 1, 'x'); refused(d, k.get(), x, e & 1, "insertion", e); mc::outcome("refused"); mc::state(mc::Hash().u(n).u(e).h); });
    mc::part("blocks", [&] { // exchange of whole internal blocks, within a file and between two files
        int n = mc::pick(std::vector<int>{ 8192, 12288, 12300 }, "length"), bs = mc::pick(std::vector<int>{ 16, 4096 }, "block"), i = mc::choose(3, "first"), j = mc::choose(3, "second"), two = mc::choose(2, "between"); OKey k = mkkey(0, 4); Dir d; Bytes a = encfile(d, k.get(), pat(n, 1)), b = encfile(d, k.get(), pat(n, 2)); if ((29 + (std::max(i, j) + 1) * bs > n + 29)) mc::prune(); Bytes x = a; if (two) x.replace(29 + i * bs, bs, b.substr(29 + j * bs, bs)); else { if (i == j) mc::prune(); Bytes t = x.substr(29 + i * bs, bs); x.replace(29 + i * bs, bs, x.substr(29 + j * bs, bs)); x.replace(29 + j * bs, bs, t); } refused(d, k.get(), x, false, "block exchange", i * 3 + j);
        if (two) { refused(d, k.get(), a.substr(0, 29) + b.substr(29), false, "header exchange", 0); refused(d, k.get(), a.substr(0, 13) + b.substr(13), false, "nonce exchange", 0); } mc::outcome("refused"); mc::state(mc::Hash().u(n).u(bs).u(i).u(j).u(two).h); });
    mc::part("keys", [&] { int c = mc::choose(2, "file-cipher"), kc = mc::choose(2, "key-cipher"), ks = mc::choose(257, "altered-bit"), only = mc::choose(2, "only"), n = mc::pick(std::vector<int>{ 0, 1, 100, 5000 }, "length"); OKey k = mkkey(c, 4), o = mkkey(kc, 4); if (ks < 256) o->key_data->bytes[ks / 8] ^= 1 << ks % 8; Dir d; Bytes pt = pat(n, 1), ct = encfile(d, k.get(), pt);
        if (ks == 256 && c == kc && !(only && c)) { MC_CHECK(openssl_aes256_file_decrypt(o.get(), (d / "c").c_str(), (d / "out").c_str(), only) && read_file(d / "out") == pt, "round-trip", "right key"); mc::outcome("ok"); } else if (c == 0 || kc != c || only) { refused(d, o.get(), ct, only, kc != c ? "key of the other cipher" : ks < 256 ? "other key" : "unauthenticated", ks); mc::outcome("refused"); } else { bool ok = openssl_aes256_file_decrypt(o.get(), (d / "c").c_str(), (d / "out").c_str(), false); MC_CHECK(!ok || n < 4 || read_file(d / "out") != pt, "other-key", "another key gives the contents"); mc::outcome("unauthenticated"); } mc::state(mc::Hash().u(c).u(kc).u(ks).u(only).u(n).h); });
    mc::part("places", [&] { // names and places that cannot work, or that name each other
        int w = mc::choose(10, "case"), enc = mc::choose(2, "encrypt"); OKey k = mkkey(0, 4); Dir d; Bytes pt = pat(100, 1), ct = encfile(d, k.get(), pt); Bytes src = enc ? pt : ct; unlink((d / "p").c_str()); unlink((d / "c").c_str()); std::string s = d / "s", t = d / "t"; write_file(s, src); bool may = false; auto run = [&](const wickr_cipher_key_t *kk, const char *a, const char *b) { mc::step(); return enc ? openssl_aes256_file_encrypt(kk, a, b) : openssl_aes256_file_decrypt(kk, a, b, true); }; bool ok;
        switch (w) { case 0: ok = run(k.get(), (d / "absent").c_str(), t.c_str()); break; case 1: ok = run(k.get(), s.c_str(), (d / "no/t").c_str()); break; case 2: mkdir(t.c_str(), 0700); ok = run(k.get(), s.c_str(), t.c_str()); rmdir(t.c_str()); break; case 3: ok = run(nullptr, s.c_str(), t.c_str()); break; case 4: ok = run(k.get(), nullptr, t.c_str()); break; case 5: ok = run(k.get(), s.c_str(), nullptr); break; case 6: ok = run(k.get(), d.d.c_str(), t.c_str()); break;
            case 7: rename(s.c_str(), (d / "t.temp").c_str()); s = d / "t.temp"; ok = run(k.get(), s.c_str(), t.c_str()); may = true; break; case 8: rename(s.c_str(), (d / "t.temp").c_str()); s = d / "t.temp"; ok = run(k.get(), (d / "./t.temp").c_str(), t.c_str()); may = true; break; case 9: write_file(d / "t.temp", "left by a crash"); ok = run(k.get(), s.c_str(), t.c_str()); may = true; MC_CHECK(ok, "stale-temporary", "a temporary file left by a crash makes the operation fail"); MC_CHECK(read_file(d / "t.temp") == "left by a crash", "other-file-destroyed", "another file next to the destination was destroyed"); break; default: abort(); }
        MC_CHECK(may || !ok, "impossible-succeeded", "case %d succeeded", w); MC_CHECK(read_file(s) == src, "source-touched", "case %d: the source file was changed", w); bool ex; Bytes out = read_file(t, &ex); if (ok) { MC_CHECK(ex, "no-destination", "case %d: success without a destination", w); if (!enc) MC_CHECK(out == pt, "round-trip", "case %d: wrong contents", w); else { OKey k2 = mkkey(0, 4); MC_CHECK(openssl_aes256_file_decrypt(k2.get(), t.c_str(), (d / "x").c_str(), true) && read_file(d / "x") == pt, "round-trip", "case %d: wrong contents", w); } } else MC_CHECK(!ex, "destination-touched", "case %d: failed but left a destination", w); mc::outcome(ok ? "ok" : "refused"); mc::state(mc::Hash().u(w).u(enc).h); });
    return mc::finish();
}
