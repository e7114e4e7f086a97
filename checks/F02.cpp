// F02: a file operation succeeds completely or leaves the destination untouched
// MC_IOWRAP: every I/O function the library may use is redirected here; streams are fopencookie streams, so the
// faults are injected below stdio, at the level of system calls, and stdio's buffering is the real one.
#include "w.hpp"
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <exception>
#include <openssl/sha.h>

namespace io {
bool active = false; int faults = 0; int64_t ops = 0; bool undo_failed = false; std::string last; std::function<void(const char *)> boundary;
static std::map<FILE *, int> fds; static std::set<int> ours;
// 0: works; otherwise the fault to inject
static std::exception_ptr pend;   // an exception (end of this execution) must not cross stdio's frames: it is kept, the library finishes undisturbed, and end() raises it
static int op(const char *name, int modes)
{
    if (!active || pend) return 0;
    active = false; ops++; int m = 0;
    try { mc::step(); boundary(name); if (faults > 0) { m = mc::choose(modes + 1, name); if (m) { faults--; last = name; mc::note("fault %d in %s (operation %ld)", m, name, (long)ops); if (!strcmp(name, "remove")) undo_failed = true; } } }
    catch (...) { pend = std::current_exception(); m = 0; }
    active = true; return m;
}
static void begin() { pend = nullptr; fds.clear(); ours.clear(); active = true; }
static void end() { active = false; if (pend) { auto p = pend; pend = nullptr; std::rethrow_exception(p); } }
struct Ck { int fd; bool eio; };
}
extern "C" {
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fclose(FILE *); int __real_fflush(FILE *); int __real_rename(const char *, const char *); int __real_remove(const char *); int __real_unlink(const char *);
int __real_fseek(FILE *, long, int); long __real_ftell(FILE *); int __real_fseeko(FILE *, off_t, int); off_t __real_ftello(FILE *); void __real_rewind(FILE *); int __real_feof(FILE *); int __real_ferror(FILE *); int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_close(int); int __real_fsync(int); int __real_fdatasync(int); int __real_ftruncate(int, off_t); int __real_link(const char *, const char *); int __real_fputc(int, FILE *); int __real_fgetc(FILE *); int __real_fputs(const char *, FILE *); FILE *__real_tmpfile(void); int __real_mkstemp(char *); int __real_setvbuf(FILE *, char *, int, size_t); int __real_fileno(FILE *);
static ssize_t ck_read(void *c, char *b, size_t n) { io::Ck *k = (io::Ck *)c; if (k->eio) { errno = EIO; return -1; } switch (io::op("read", 2)) { case 1: errno = EIO; return -1; case 2: n = n > 7 ? n / 2 : n; k->eio = true; } return __real_read(k->fd, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) { io::Ck *k = (io::Ck *)c; switch (io::op("write", 2)) { case 1: errno = ENOSPC; return 0; case 2: n = n > 1 ? n / 2 : 0; if (n) __real_write(k->fd, b, n); errno = ENOSPC; return n; } return __real_write(k->fd, b, n); }
static int ck_seek(void *c, off64_t *o, int w) { io::Ck *k = (io::Ck *)c; if (io::op("seek", 1)) { errno = EIO; return -1; } off_t r = lseek(k->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { io::Ck *k = (io::Ck *)c; int m = io::op("close", 1); int r = __real_close(k->fd); delete k; if (m) { errno = EIO; return -1; } return r; }
static FILE *cookie(int fd, const char *mode) { cookie_io_functions_t f = { ck_read, ck_write, ck_seek, ck_close }; io::Ck *k = new io::Ck{ fd, false }; std::string m; for (const char *p = mode; *p && *p != ','; p++) if (*p != 'x' && *p != 'e' && *p != 'm' && *p != 'c') m += *p; FILE *s = fopencookie(k, m.c_str(), f); io::fds[s] = fd; return s; }
FILE *__wrap_fopen(const char *p, const char *mode) { if (!io::active) return __real_fopen(p, mode); if (io::op("open", 1)) { errno = EMFILE; return nullptr; } int fl = strchr(mode, '+') ? O_RDWR : *mode == 'r' ? O_RDONLY : O_WRONLY; if (*mode == 'w') fl |= O_CREAT | O_TRUNC; if (*mode == 'a') fl |= O_CREAT | O_APPEND; if (strchr(mode, 'x')) fl |= O_EXCL; int fd = __real_open(p, fl, 0644); return fd < 0 ? nullptr : cookie(fd, mode); }
FILE *__wrap_fopen64(const char *p, const char *m) { return __wrap_fopen(p, m); }
FILE *__wrap_fdopen(int fd, const char *m) { return io::active ? cookie(fd, m) : __real_fdopen(fd, m); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *f) { return __real_fread(b, s, n, f); }
size_t __wrap_fwrite(const void *b, size_t s, size_t n, FILE *f) { return __real_fwrite(b, s, n, f); }
int __wrap_fclose(FILE *f) { int r = __real_fclose(f); io::fds.erase(f); return r; }
int __wrap_fflush(FILE *f) { return __real_fflush(f); }
int __wrap_rename(const char *a, const char *b) { if (io::op("rename", 1)) { errno = EIO; return -1; } return __real_rename(a, b); }
int __wrap_remove(const char *a) { if (io::op("remove", 1)) { errno = EACCES; return -1; } return __real_remove(a); }
int __wrap_unlink(const char *a) { if (io::op("remove", 1)) { errno = EACCES; return -1; } return __real_unlink(a); }
int __wrap_link(const char *a, const char *b) { if (io::op("link", 1)) { errno = EIO; return -1; } return __real_link(a, b); }
int __wrap_fseek(FILE *f, long o, int w) { return __real_fseek(f, o, w); } long __wrap_ftell(FILE *f) { return __real_ftell(f); } int __wrap_fseeko(FILE *f, off_t o, int w) { return __real_fseeko(f, o, w); } off_t __wrap_ftello(FILE *f) { return __real_ftello(f); } void __wrap_rewind(FILE *f) { __real_rewind(f); } int __wrap_feof(FILE *f) { return __real_feof(f); } int __wrap_ferror(FILE *f) { return __real_ferror(f); }
int __wrap_fputc(int c, FILE *f) { return __real_fputc(c, f); } int __wrap_fgetc(FILE *f) { return __real_fgetc(f); } int __wrap_fputs(const char *s, FILE *f) { return __real_fputs(s, f); } int __wrap_setvbuf(FILE *f, char *b, int m, size_t n) { return __real_setvbuf(f, b, m, n); }
FILE *__wrap_tmpfile(void) { if (!io::active) return __real_tmpfile(); if (io::op("open", 1)) { errno = EMFILE; return nullptr; } return __real_tmpfile(); }
int __wrap_fileno(FILE *f) { auto i = io::fds.find(f); return i == io::fds.end() ? __real_fileno(f) : i->second; }
int __wrap_mkstemp(char *t) { if (!io::active) return __real_mkstemp(t); if (io::op("open", 1)) { errno = EMFILE; return -1; } int fd = __real_mkstemp(t); if (fd >= 0) io::ours.insert(fd); return fd; }
int __wrap_open(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); if (!io::active) return __real_open(p, fl, md); if (io::op("open", 1)) { errno = EMFILE; return -1; } int fd = __real_open(p, fl, md); if (fd >= 0) io::ours.insert(fd); return fd; }
int __wrap_open64(const char *p, int fl, ...) { va_list a; va_start(a, fl); int md = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); return __wrap_open(p, fl, md); }
ssize_t __wrap_read(int fd, void *b, size_t n) { if (!io::active || !io::ours.count(fd)) return __real_read(fd, b, n); switch (io::op("read", 2)) { case 1: errno = EIO; return -1; case 2: n = n > 7 ? n / 2 : n; } return __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (!io::active || !io::ours.count(fd)) return __real_write(fd, b, n); switch (io::op("write", 2)) { case 1: errno = ENOSPC; return -1; case 2: n = n > 1 ? n / 2 : n; } return __real_write(fd, b, n); }
int __wrap_close(int fd) { if (!io::active || !io::ours.erase(fd)) return __real_close(fd); int m = io::op("close", 1), r = __real_close(fd); if (m) { errno = EIO; return -1; } return r; }
int __wrap_fsync(int fd) { if (io::active && io::op("sync", 1)) { errno = EIO; return -1; } return __real_fsync(fd); } int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
int __wrap_ftruncate(int fd, off_t n) { if (io::active && io::op("truncate", 1)) { errno = EIO; return -1; } return __real_ftruncate(fd, n); }
}
static const wickr_cipher_t CI[2] = { CIPHER_AES256_GCM, CIPHER_AES256_CTR };
static std::set<std::string> ls(const std::string &d) { std::set<std::string> s; if (DIR *p = opendir(d.c_str())) { while (dirent *e = readdir(p)) if (e->d_name[0] != '.') s.insert(e->d_name); closedir(p); } return s; }
static void fresh(const std::string &d) { for (auto &f : ls(d)) unlink((d + "/" + f).c_str()); rmdir(d.c_str()); mkdir(d.c_str(), 0700); }
// is `ct` a complete encryption of pt under this key? (through the in-memory decryption)
static bool complete(const Bytes &ct, const wickr_cipher_key_t *k, const Bytes &pt) { if (ct.size() != pt.size() + 1 + k->cipher.iv_len + k->cipher.auth_tag_len || ct[0] != (char)k->cipher.cipher_id) return false;
    Exact b(ct); OCipher r(wickr_cipher_result_from_buffer(b)); if (!r) return false; if (pt.empty()) { Bytes p2 = "x"; Exact pb(p2); /* an empty text has a tag of its own: check it through GCM's definition by the library's file reader */ std::string t = mc::scratch() + "/e"; write_file(t, ct); FILE *in = fopen(t.c_str(), "rb"), *out = fopen((t + "o").c_str(), "wb"); bool ok = openssl_decrypt_file(in, k, out, false); fclose(in); fclose(out); return ok && read_file(t + "o").empty(); }
    OBuf q(openssl_aes256_decrypt(r.get(), nullptr, k, false)); return is(q.get(), pt); }

int main(int argc, char **argv)
{
    mc::init("F02", "fault_enumeration", "every I/O operation (open, read, write, seek, close, rename, remove, as issued below stdio) of encrypting and decrypting files of boundary sizes, failing outright or after half the data, singly and in pairs; every boundary between two such operations as a crash point, where the directory is judged and the operation is run again on a copy of it", argc, argv);
    rng_install(); rng_seed(mc::seed()); mc::on_exec([] { rng_seed(mc::seed() + 7); io::active = false; io::boundary = nullptr; });
    mc::assume("the process may die between system calls; loss of data the kernel has accepted (power failure) is not modelled");
    struct W { int op, c, n, dest, api; };
    auto run = [&](int nfaults, const std::vector<int> &sizes) {
        int opn = mc::choose(2, "operation"), c = mc::choose(2, "cipher"), n = mc::pick(sizes, "length"), dest = mc::choose(4, "destination"), api = dest ? 0 : mc::choose(2, "interface");   // dest 0 absent, 1 short, 2 long, 3 is the source
        std::string d = mc::scratch() + "/d", d2 = mc::scratch() + "/e2"; fresh(d); OKey k(wickr_cipher_key_create(CI[c], mk(pat(32, 4)))); Bytes pt = pat(n, 1), src = pt; std::string s = d + "/s", t = dest == 3 ? s : d + "/t";
        write_file(s, pt); if (opn) { MC_CHECK(openssl_aes256_file_encrypt(k.get(), s.c_str(), (d + "/x").c_str()), "encrypt-failed", "setup"); src = read_file(d + "/x"); unlink((d + "/x").c_str()); write_file(s, src); }
        Bytes old = dest == 1 ? Bytes("old") : dest == 2 ? pat(20000, 9) : dest == 3 ? src : Bytes(); if (dest && dest != 3) write_file(t, old); auto before = ls(d);
        auto is_new = [&](const Bytes &x) { return opn ? x == pt : complete(x, k.get(), pt); }; auto call = [&](const std::string &a, const std::string &b) { return opn ? openssl_aes256_file_decrypt(k.get(), a.c_str(), b.c_str(), !c) : openssl_aes256_file_encrypt(k.get(), a.c_str(), b.c_str()); };
        std::string seen_sig; auto judge = [&](const char *when) -> bool { bool ex; Bytes now = read_file(t, &ex); bool isold = ex == (dest != 0) && now == old, isnew = ex && is_new(now); MC_CHECK(isold || isnew, "destination-torn", "%s: the destination %s neither its old nor its complete new contents (%zu bytes)", when, ex ? "holds" : "is absent:", now.size()); if (dest != 3) MC_CHECK(read_file(s) == src, "source-changed", "%s: the source changed", when); return isnew; };
        bool ok = false; io::ops = 0; io::faults = nfaults; io::undo_failed = false; io::last = "none";
        io::boundary = [&](const char *next) { if (api == 0) { char w[80]; snprintf(w, sizeof w, "death before %s, operation %ld", next, (long)io::ops); bool isnew = judge(w); mc::Hash h; for (auto &f : ls(d)) h.s(f).s(read_file(d + "/" + f)); mc::state(h.u(opn).u(c).h);
                if (nfaults == io::faults) { fresh(d2); for (auto &f : ls(d)) write_file(d2 + "/" + f, read_file(d + "/" + f)); std::string s2 = d2 + "/s", t2 = dest == 3 ? s2 : d2 + "/t"; if (!(dest == 3 && isnew)) { bool again = call(s2, t2); MC_CHECK(again && is_new(read_file(t2)), "no-recovery", "%s: running the operation again %s", w, again ? "gives other contents" : "fails"); } } } };
        if (api == 0) { io::begin(); ok = call(s, t); size_t open_ = io::fds.size() + io::ours.size(); io::end(); MC_CHECK(!open_, "left-open", "%zu file(s) stay open after %s (fault in %s)", open_, ok ? "success" : "failure", io::last.c_str()); }
        else { io::begin(); FILE *in = fopen(s.c_str(), "rb"), *out = in ? fopen(t.c_str(), "wb") : nullptr; if (in && out) ok = opn ? openssl_decrypt_file(in, k.get(), out, !c) : openssl_encrypt_file(in, k.get(), out); io::faults = 0; if (in) fclose(in); if (out && fclose(out)) ok = false; io::end(); if (ok) MC_CHECK(is_new(read_file(t)), "false-success", "success with a fault in %s, but the output is not complete", io::last.c_str()); mc::outcome(ok ? "ok" : "failed"); mc::state(mc::Hash().u(ok).s(io::last).u(io::ops).u(n).u(c).u(opn).u(77).h); return; }
        bool isnew = judge("at the end"); bool faulted = io::faults < nfaults;
        if (ok) MC_CHECK(isnew && (dest == 3 || is_new(read_file(t))), "false-success", "success is reported (fault in %s), but the destination does not hold the new contents", io::last.c_str()); else { MC_CHECK(faulted, "failed-without-fault", "the operation failed without any fault"); bool ex; Bytes now = read_file(t, &ex); MC_CHECK(ex == (dest != 0) && now == old, "failed-but-replaced", "failure is reported (fault in %s), but the destination was replaced", io::last.c_str()); }
        if (!io::undo_failed) { auto after = ls(d); if (ok) before.insert(t.substr(d.size() + 1)); MC_CHECK(after == before, "left-over", "%s is reported (fault in %s), but the directory holds %zu files instead of %zu", ok ? "success" : "failure", io::last.c_str(), after.size(), before.size()); }
        mc::outcome(ok ? faulted ? "completed-despite-fault" : "completed" : "failed-cleanly"); mc::nontrivial(mc::Hash().s(io::last).u(io::ops).u(opn).u(c).u(n).u(dest).u(ok).h);
    };
    mc::part("single-faults", [&] { run(1, { 0, 1, 100, 4066, 4067, 4068, 4096, 5000, 8192, 12300 }); });
    mc::part("fault-pairs", [&] { run(2, mc::thorough() ? std::vector<int>{ 0, 100, 4067, 4096, 9000, 20000 } : std::vector<int>{ 0, 100, 5000, 9000 }); });
    if (mc::thorough()) mc::part("fault-triples", [&] { run(3, { 0, 100, 5000 }); });
    mc::part("digest", [&] { int n = mc::pick(std::vector<int>{ 0, 1, 4095, 4096, 4097, 9000 }, "length"); Bytes b = pat(n, 1); std::string p = mc::scratch() + "/g"; write_file(p, b); io::boundary = [](const char *) {}; io::ops = 0; io::faults = 2; io::last = "none"; io::begin(); FILE *f = fopen(p.c_str(), "rb"); MB r = f ? openssl_sha2_file(f, DIGEST_SHA_512) : nullptr; io::faults = 0; if (f) fclose(f); if (io::pend) wickr_buffer_destroy(&r); io::end(); uint8_t md[64]; SHA512((const uint8_t *)b.data(), b.size(), md); MC_CHECK(!r || is(r, Bytes((char *)md, 64)), "digest-of-part", "digest of part of a file (fault in %s)", io::last.c_str()); MC_CHECK(r || io::last != "none", "failed-without-fault", "no digest"); mc::outcome(r ? "ok" : "failed"); mc::state(mc::Hash().u(n).s(io::last).u(io::ops).u(!!r).h); wickr_buffer_destroy(&r); });
    return mc::finish();
}
