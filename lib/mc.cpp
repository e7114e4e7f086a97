#include "mc.hpp"
#include <atomic>
#include <algorithm>
#include <cerrno>
#include <fcntl.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>

namespace mc {

struct PruneEx {};
struct SplitEx {};
struct ViolationEx {};

enum { MAXTRACE = 4096, MAXWORK = 64, MSGLEN = 4096, NOUT = 256, OUTLEN = 56, NKNOWN = 64 };

struct Slot {                       // shared between one worker and the parent
    std::atomic<uint64_t> start_ns; // start of the current execution, 0 when idle
    std::atomic<uint32_t> len;
    uint16_t trace[MAXTRACE];
    uint16_t arity[MAXTRACE];
    std::atomic<uint64_t> execs, pruned, steps;
    std::atomic<uint32_t> violated;
    char key[256];
    char msg[MSGLEN];
    std::atomic<uint32_t> ntasks_done;
    uint32_t hist[1 << 16];         // tasks this worker took, in order
};
struct Shared {
    std::atomic<uint64_t> next_task;
    std::atomic<uint32_t> stop;
    std::atomic<uint64_t> set_count, nt_count, seen_count, set_full;
    std::atomic<uint32_t> nout;
    char out_name[NOUT][OUTLEN];
    std::atomic<uint64_t> out_count[NOUT];
    std::atomic<uint32_t> known_hit[NKNOWN];
    Slot slot[MAXWORK];
};
static uint64_t SETBITS = 23;               // 8M entries (quick), 128M (thorough)

static Shared *SH;
static std::atomic<uint64_t> *SET_STATE, *SET_SEEN, *SET_NT;

// ---- per check -----------------------------------------------------------------------------
static std::string g_prop, g_level, g_rule, g_tier = "quick", g_out, g_known_file, g_replay_dir = ".", g_replay_part, g_only;
static uint64_t g_seed = 1;
static int g_jobs = 8;
static double g_budget = 0, g_t0;
static std::vector<std::pair<std::string, std::string>> g_known; // key, text
static std::vector<std::string> g_assume;
static std::vector<std::function<void()>> g_on_exec;
static std::string g_violation_replay, g_violation_msg;
static int g_violations = 0;
static bool g_exhaustive = true, g_error = false;
static bool g_replay = false;
static std::vector<uint16_t> g_replay_trace;
static std::string g_scratch; static pid_t g_scratch_pid = 0;
static std::string g_scratch_base;
struct PartRes { std::string name; uint64_t execs, pruned, steps, tasks; double wall; bool complete; std::vector<std::string> samples; std::map<std::string, uint64_t> outcomes; };
static std::vector<PartRes> g_parts;
static uint64_t g_states_total, g_nt_total, g_seen_total;

// ---- per execution -------------------------------------------------------------------------
static thread_local Slot *W;           // current slot
static std::vector<uint16_t> X_val, X_ar;
static size_t X_pos, X_replay_len, X_split; static int X_split_ar;
static bool X_splitting;
static bool X_in_exec;
static std::string X_notes; static bool X_keep_notes;
static uint64_t X_part_salt;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t now_ns() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000ull + t.tv_nsec; }

int choose(int n, const char *label)
{
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) %s\n", n, label ? label : ""); abort(); }
    if (!X_in_exec) { fprintf(stderr, "mc: choose outside execution\n"); abort(); }
    if (X_pos < X_val.size()) {
        if (X_ar[X_pos] != 0 && X_ar[X_pos] != n) {
            fprintf(stderr, "mc: NONDETERMINISM at choice %zu (%s): arity %d then %d\n", X_pos, label ? label : "", X_ar[X_pos], n);
            if (W) { snprintf(W->key, sizeof W->key, "nondeterminism"); snprintf(W->msg, sizeof W->msg, "the execution is not a function of its choices: choice %zu (%s) had %d alternatives and now %d", X_pos, label ? label : "", X_ar[X_pos], n); }
            throw ViolationEx();
        }
        X_ar[X_pos] = n;
        if (X_val[X_pos] >= n) { fprintf(stderr, "mc: replay value out of range\n"); throw ViolationEx(); }
    } else {
        if (X_splitting && X_pos + 1 >= X_split) { X_split_ar = n; throw SplitEx(); }
        if (X_pos >= MAXTRACE) { fprintf(stderr, "mc: trace too long\n"); abort(); }
        X_val.push_back(0); X_ar.push_back(n);
    }
    int v = X_val[X_pos];
    if (W) { W->trace[X_pos] = v; W->arity[X_pos] = n; W->len.store(X_pos + 1, std::memory_order_relaxed); }
    X_pos++;
    if (X_keep_notes && label) { X_notes += label; X_notes += "="; X_notes += std::to_string(v); X_notes += " "; }
    return v;
}
void prune() { throw PruneEx(); }

static bool set_insert(std::atomic<uint64_t> *tab, uint64_t h, std::atomic<uint64_t> &cnt)
{
    h = mix(h ^ X_part_salt); if (h == 0) h = 1;
    uint64_t mask = (1ull << SETBITS) - 1, i = h & mask;
    if (cnt.load(std::memory_order_relaxed) > (mask * 3) / 4) { SH->set_full = 1; return true; }
    for (;;) {
        uint64_t cur = tab[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            if (tab[i].compare_exchange_strong(cur, h)) { cnt.fetch_add(1, std::memory_order_relaxed); return true; }
            if (cur == h) return false;
        }
        i = (i + 1) & mask;
    }
}
bool seen(uint64_t f)
{
    if (g_replay || X_splitting) return false;
    if (X_pos < X_replay_len) return false;
    return !set_insert(SET_SEEN, f, SH->seen_count);
}
void state(uint64_t f) { if (!g_replay && !X_splitting) set_insert(SET_STATE, f, SH->set_count); }
void nontrivial(uint64_t f) { if (!g_replay && !X_splitting) set_insert(SET_NT, f, SH->nt_count); }
void step(uint64_t n) { if (W && X_pos >= X_replay_len) W->steps.fetch_add(n, std::memory_order_relaxed); }
void outcome(const char *name)
{
    if (g_replay || X_splitting) return;
    static std::map<std::string, int> cache;
    auto it = cache.find(name);
    int idx = -1;
    if (it != cache.end()) idx = it->second;
    else {
        static std::atomic<uint32_t> *lock = nullptr; (void)lock;
        // look for the name among published entries, else claim a new entry
        for (;;) {
            uint32_t n = SH->nout.load();
            for (uint32_t i = 0; i < n && i < NOUT; i++) if (!strncmp(SH->out_name[i], name, OUTLEN - 1)) { idx = i; break; }
            if (idx >= 0) break;
            // a spin lock hidden in the high bit of stop
            uint32_t expect = 0; static std::atomic<uint32_t> &l = *(std::atomic<uint32_t> *)&SH->out_name[NOUT - 1][0];
            if (!l.compare_exchange_strong(expect, 1)) continue;
            if (SH->nout.load() == n && n < NOUT - 1) { strncpy(SH->out_name[n], name, OUTLEN - 1); SH->nout.store(n + 1); idx = n; }
            l.store(0);
            if (idx >= 0) break;
            if (n >= NOUT - 1) return;
        }
        cache[name] = idx;
    }
    SH->out_count[idx].fetch_add(1, std::memory_order_relaxed);
}
void note(const char *fmt, ...)
{
    if (!X_keep_notes && !g_replay) return;
    char buf[1024]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    if (g_replay) fprintf(stderr, "  | %s\n", buf);
    if (X_keep_notes && X_notes.size() < 3000) { X_notes += buf; X_notes += "; "; }
}
bool replaying() { return g_replay; }

static int known_index(const char *key)
{
    for (size_t i = 0; i < g_known.size() && i < NKNOWN; i++) if (g_known[i].first == key) return (int)i;
    return -1;
}
static void vrecord(const char *key, const char *fmt, va_list ap)
{
    char buf[MSGLEN]; vsnprintf(buf, sizeof buf, fmt, ap);
    if (g_replay) fprintf(stderr, "VIOLATED [%s] %s\n", key, buf);
    if (W) { snprintf(W->key, sizeof W->key, "%s", key); snprintf(W->msg, sizeof W->msg, "%s", buf); }
}
void fail(const char *key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vrecord(key, fmt, ap); va_end(ap);
    int k = known_index(key);
    if (k >= 0) { SH->known_hit[k].fetch_add(1); throw PruneEx(); }
    if (!X_in_exec) { fprintf(stderr, "mc: failure outside an execution: %s\n", key); va_list a2; va_start(a2, fmt); vfprintf(stderr, fmt, a2); fprintf(stderr, "\n"); va_end(a2); _exit(2); }
    throw ViolationEx();
}
bool known_or_fail(const char *key, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt); vrecord(key, fmt, ap); va_end(ap);
    int k = known_index(key);
    if (k >= 0) { SH->known_hit[k].fetch_add(1); return true; }
    throw ViolationEx();
}

bool thorough() { return g_tier == "thorough"; }
uint64_t seed() { return g_seed; }
void on_exec(const std::function<void()> &f) { g_on_exec.push_back(f); }
void assume(const char *t) { g_assume.push_back(t); }

static void rm_rf(const std::string &d)
{
    DIR *dir = opendir(d.c_str()); if (!dir) return;
    while (struct dirent *e = readdir(dir)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = d + "/" + n; struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); rm_rf(p); } else unlink(p.c_str());
    }
    closedir(dir); rmdir(d.c_str());
}
std::string scratch()
{
    if (g_scratch.empty() || g_scratch_pid != getpid()) {
        char t[512]; snprintf(t, sizeof t, "%s/p%d", g_scratch_base.c_str(), (int)getpid());
        mkdir(t, 0700);
        g_scratch = t; g_scratch_pid = getpid();
    }
    return g_scratch;
}

static void usage() { fprintf(stderr, "usage: check [--tier quick|thorough] [--out evidence.json] [--known file] [--replays dir] [--replay file] [--jobs n] [--only part]\n"); exit(2); }

void init(const char *property, const char *level, const char *rule, int argc, char **argv)
{
    g_prop = property; g_level = level; g_rule = rule; g_t0 = now();
    if (const char *e = getenv("VERIF_SEED")) g_seed = strtoull(e, 0, 10);
    if (const char *e = getenv("VERIF_TIER")) g_tier = e;
    std::string replay_file;
    g_jobs = (int)sysconf(_SC_NPROCESSORS_ONLN); if (g_jobs < 1) g_jobs = 1; if (g_jobs > 16) g_jobs = 16;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto val = [&]() -> std::string { if (i + 1 >= argc) usage(); return argv[++i]; };
        if (a == "--tier") g_tier = val(); else if (a == "--out") g_out = val(); else if (a == "--known") g_known_file = val();
        else if (a == "--replays") g_replay_dir = val(); else if (a == "--replay") replay_file = val(); else if (a == "--jobs") g_jobs = atoi(val().c_str());
        else if (a == "--only") g_only = val(); else if (a == "--budget") g_budget = atof(val().c_str()); else usage();
    }
    if (g_jobs > MAXWORK) g_jobs = MAXWORK;
    if (!g_budget) g_budget = thorough() ? 5400 : 240;
    const char *tmp = getenv("MC_SCRATCH"); if (!tmp) tmp = "/tmp";
    char t[256]; snprintf(t, sizeof t, "%s/mc-%s-XXXXXX", tmp, property);
    if (!mkdtemp(t)) { perror("mkdtemp"); exit(2); }
    g_scratch_base = t;
    auto map = [](size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; };
    SETBITS = g_tier == "thorough" ? 27 : 23;
    SH = (Shared *)map(sizeof(Shared));
    SET_STATE = (std::atomic<uint64_t> *)map(8ull << SETBITS);
    SET_SEEN = (std::atomic<uint64_t> *)map(8ull << SETBITS);
    SET_NT = (std::atomic<uint64_t> *)map(8ull << SETBITS);
    if (!g_known_file.empty()) {   // lines: property<TAB>key<TAB>text   (or "fixed: ..." lines, which suppress nothing)
        if (FILE *f = fopen(g_known_file.c_str(), "r")) {
            char line[4096];
            while (fgets(line, sizeof line, f)) {
                std::string s = line; while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
                size_t a = s.find('\t'); if (a == std::string::npos || s[0] == '#') continue;
                size_t b = s.find('\t', a + 1); if (b == std::string::npos) continue;
                if (s.substr(0, a) == g_prop) g_known.push_back({s.substr(a + 1, b - a - 1), s.substr(b + 1)});
            }
            fclose(f);
        }
    }
    if (!replay_file.empty()) {
        g_replay = true;
        FILE *f = fopen(replay_file.c_str(), "r"); if (!f) { perror("replay"); exit(2); }
        char line[65536];
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "part ", 5)) { g_replay_part = line + 5; while (!g_replay_part.empty() && g_replay_part.back() == '\n') g_replay_part.pop_back(); }
            if (!strncmp(line, "tier ", 5)) { g_tier = line + 5; while (!g_tier.empty() && g_tier.back() == '\n') g_tier.pop_back(); }
            if (!strncmp(line, "choices", 7)) { char *p = line + 7; char *e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; g_replay_trace.push_back((uint16_t)v); p = e; } }
        }
        fclose(f);
    }
}

// run one execution; returns 0 ok, 1 pruned, 2 split, 3 violation
static int run_one(const std::function<void()> &fn, Slot *w)
{
    W = w; X_pos = 0; X_in_exec = true; X_notes.clear();
    if (w) { w->len = 0; w->start_ns.store(now_ns()); }
    int r = 0;
    try { for (auto &f : g_on_exec) f(); fn(); }
    catch (PruneEx &) { r = 1; }
    catch (SplitEx &) { r = 2; }
    catch (ViolationEx &) { r = 3; }
    X_in_exec = false;
    if (w) w->start_ns.store(0);
    return r;
}
static bool backtrack(size_t base)
{
    size_t n = X_pos; // choices actually used
    X_val.resize(n); X_ar.resize(n);
    while (n > base && X_val[n - 1] + 1 >= X_ar[n - 1]) n--;
    if (n <= base) return false;
    X_val.resize(n); X_ar.resize(n);
    X_val[n - 1]++;
    X_replay_len = n;
    return true;
}
static void load(const std::vector<uint16_t> &v) { X_val = v; X_ar.assign(v.size(), 0); X_replay_len = v.size(); }

// explore one task; returns false on violation
static bool run_task(const std::function<void()> &fn, Slot *w, const std::vector<uint16_t> &prefix, const std::vector<uint16_t> *until = nullptr)
{
    load(prefix);
    for (;;) {
        if (SH->stop.load(std::memory_order_relaxed)) return true;
        int r = run_one(fn, w);
        if (r == 3) return false;
        if (w) { w->execs.fetch_add(1, std::memory_order_relaxed); if (r == 1) w->pruned.fetch_add(1, std::memory_order_relaxed); }
        if (until && std::vector<uint16_t>(X_val.begin(), X_val.begin() + X_pos) == *until) return true;
        if (!backtrack(prefix.size())) return true;
    }
}

static void redirect_stderr(const std::string &f) { int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); } }
static std::string slurp(const std::string &f, size_t max) { std::string s; if (FILE *h = fopen(f.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0 && s.size() < max) s.append(b, n); fclose(h); } return s; }

static std::string crash_summary(const std::string &log)
{
    size_t p = log.find("SUMMARY:"); if (p != std::string::npos) { size_t e = log.find('\n', p); return log.substr(p, e - p); }
    p = log.find("ERROR: AddressSanitizer"); if (p != std::string::npos) { size_t e = log.find('\n', p); return log.substr(p, e - p); }
    p = log.find("runtime error:"); if (p != std::string::npos) { size_t b = log.rfind('\n', p); b = b == std::string::npos ? 0 : b + 1; size_t e = log.find('\n', p); return log.substr(b, e - b); }
    return log.substr(0, 300);
}

// Re-run a trace in a fresh process; true if it fails again (violation, crash or hang)
static bool confirm(const std::function<void()> &fn, const std::vector<uint16_t> &trace, double timeout, std::string &msg, std::string &key, const std::vector<std::vector<uint16_t>> *tasks, const std::vector<uint32_t> *hist)
{
    Slot *s = &SH->slot[MAXWORK - 1];
    memset((void *)s, 0, sizeof *s);
    std::string log = g_scratch_base + "/confirm.log";
    pid_t pid = fork();
    if (pid == 0) {
        redirect_stderr(log);
        SH->stop = 0;
        bool ok = true;
        if (tasks) madvise((void *)SET_SEEN, sizeof(uint64_t) << SETBITS, MADV_REMOVE);  // start from an empty visited set
        else g_replay = true;                                                            // no pruning against the visited set
        if (!tasks) { X_keep_notes = true; load(trace); ok = run_one(fn, s) != 3; }
        else for (uint32_t t : *hist) { if (!run_task(fn, s, (*tasks)[t])) { ok = false; break; } }
        if (!ok) s->violated = 1;
        if (!tasks && !X_notes.empty()) { FILE *f = fopen((g_scratch_base + "/notes").c_str(), "w"); if (f) { fputs(X_notes.c_str(), f); fclose(f); } }
        _exit(ok ? 0 : 3);
    }
    double t0 = now(); int st = 0; bool killed = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break;
        bool hang = !tasks ? now() - t0 > timeout * 1.5 : now() - t0 > 600;
        if (hang) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
        usleep(2000);
    }
    if (killed) { if (!tasks) { msg = "the operation does not terminate (or takes longer than the bound of " + std::to_string((int)timeout) + " s)"; key = "hang"; return true; } return false; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && s->violated) { msg = s->msg; key = s->key; return true; }
    std::string l = slurp(log, 200000);
    msg = "crash: " + crash_summary(l); key = "crash";
    return true;
}

static void write_replay(const char *part, const std::vector<uint16_t> &trace, const std::string &key, const std::string &msg, const std::string &log)
{
    mkdir(g_replay_dir.c_str(), 0755);
    static int n = 0;
    char fn[1024]; snprintf(fn, sizeof fn, "%s/%s-%d-%s.replay", g_replay_dir.c_str(), g_prop.c_str(), n++, part);
    for (char *c = fn + g_replay_dir.size() + 1; *c; c++) if (*c == ' ' || *c == '/') *c = '_';
    if (FILE *f = fopen(fn, "w")) {
        fprintf(f, "property %s\npart %s\ntier %s\nkey %s\nchoices", g_prop.c_str(), part, g_tier.c_str(), key.c_str());
        for (auto v : trace) fprintf(f, " %d", v);
        fprintf(f, "\nmessage %s\n", msg.c_str());
        std::string notes = slurp(g_scratch_base + "/notes", 100000);
        if (!notes.empty()) fprintf(f, "trace %s\n", notes.c_str());
        if (!log.empty()) fprintf(f, "log\n%s\n", log.substr(0, 20000).c_str());
        fclose(f);
    }
    g_violation_replay = fn; g_violation_msg = msg;
}

void part(const char *name, const std::function<void()> &fn, PartOpts o)
{
    if (g_replay) {
        if (g_replay_part != name) return;
        X_keep_notes = true;
        load(g_replay_trace);
        fprintf(stderr, "replaying %zu choices in part %s\n", g_replay_trace.size(), name);
        int r = run_one(fn, nullptr);
        fprintf(stderr, "replay: %s\n%s\n", r == 3 ? "VIOLATED" : r == 1 ? "pruned" : "ok", X_notes.c_str());
        rm_rf(g_scratch_base);
        exit(r == 3 ? 1 : 0);
    }
    if (!g_only.empty() && g_only != name) return;
    if (g_violations || g_error) return;
    if (now() - g_t0 > g_budget) { g_exhaustive = false; g_parts.push_back({name, 0, 0, 0, 0, 0, false, {}, {}}); return; }
    double t0 = now();
    X_part_salt = Hash().s(name).h;
    SH->next_task = 0; SH->stop = 0; SH->nout = 0; memset(SH->out_name, 0, sizeof SH->out_name); for (auto &c : SH->out_count) c = 0;

    // --- tasks: all choice prefixes of some depth (found in a child: the code under test runs there)
    struct TaskBuf { std::atomic<uint64_t> n; std::atomic<uint32_t> bad; uint32_t used; uint16_t data[]; };
    size_t tbsz = 256ull << 20;
    TaskBuf *tb = (TaskBuf *)mmap(nullptr, tbsz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    std::vector<std::vector<uint16_t>> tasks;
    int want = g_jobs * 24;
    Slot *gs = &SH->slot[MAXWORK - 1]; memset((void *)gs, 0, sizeof *gs);
    std::string glog = g_scratch_base + "/gen.log";
    fflush(stdout); fflush(stderr);
    pid_t gp = fork();
    if (gp == 0) {
        redirect_stderr(glog);
        // pass s collects every prefix of s choices (without running beyond the s-th) and every shorter complete execution
        double tg = now(); std::vector<std::vector<uint16_t>> best; bool have = false;
        for (size_t split = o.split ? o.split : 1;; split++) {
            std::vector<std::vector<uint16_t>> cur; bool any_split = false, over = false;
            X_splitting = true; X_split = split; load({});
            for (;;) {
                int r = run_one(fn, gs);
                if (r == 3) { gs->violated = 1; _exit(3); }
                std::vector<uint16_t> pre(X_val.begin(), X_val.begin() + X_pos);
                if (r == 2) { any_split = true; for (int i = 0; i < X_split_ar; i++) { cur.push_back(pre); cur.back().push_back(i); } }
                else cur.push_back(pre);
                if (cur.size() > 60000 || (have && now() - tg > 1.0)) { over = true; break; }
                if (!backtrack(0)) break;
            }
            if (over && have) break;                                    // keep the previous depth
            if (over) { cur.assign(1, {}); any_split = false; }
            best.swap(cur); have = true;
            if (o.split || !any_split || best.size() >= (size_t)want || now() - tg > 1.0) break;
        }
        uint64_t off = 0; for (auto &t : best) { tb->data[off] = (uint16_t)t.size(); for (size_t i = 0; i < t.size(); i++) tb->data[off + 1 + i] = t[i]; off += 1 + t.size(); } tb->n = best.size();
        _exit(0);
    }
    int st; 
    for (;;) {
        pid_t r = waitpid(gp, &st, WNOHANG); if (r == gp) break;
        uint64_t s0 = gs->start_ns.load();
        if (s0 && (now_ns() - s0) * 1e-9 > o.exec_timeout) { kill(gp, SIGKILL); waitpid(gp, &st, 0); st = SIGKILL; break; }
        usleep(1000);
    }
    std::vector<uint16_t> bad_trace; std::string bad_log, bad_msg, bad_key; bool bad = false; bool bad_hang = false;
    std::vector<uint32_t> bad_hist;
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        bad = true; bad_trace.assign(gs->trace, gs->trace + gs->len.load()); bad_log = slurp(glog, 200000);
        if (gs->violated) { bad_msg = gs->msg; bad_key = gs->key; } else { bad_msg = "crash: " + crash_summary(bad_log); bad_key = "crash"; }
    } else {
        uint64_t off = 0;
        for (uint64_t i = 0; i < tb->n; i++) { uint16_t l = tb->data[off]; tasks.emplace_back(tb->data + off + 1, tb->data + off + 1 + l); off += 1 + l; }
    }
    munmap(tb, tbsz);
    uint64_t execs = 0, pruned = 0, steps = 0; bool complete = true;
    std::vector<std::string> samples;
    int jobs = o.serial ? 1 : std::min<int>(g_jobs, std::max<size_t>(1, tasks.size()));
    if (!bad) {
        std::vector<pid_t> pids(jobs);
        for (int w = 0; w < jobs; w++) {
            Slot *s = &SH->slot[w]; memset((void *)s, 0, offsetof(Slot, hist));
            pid_t p = fork();
            if (p == 0) {
                redirect_stderr(g_scratch_base + "/w" + std::to_string(w) + ".log");
                X_splitting = false;
                for (;;) {
                    uint64_t t = SH->next_task.fetch_add(1);
                    if (t >= tasks.size() || SH->stop) break;
                    uint32_t k = s->ntasks_done.load(); if (k < (1 << 16)) s->hist[k] = (uint32_t)t;
                    s->ntasks_done = k + 1;
                    if (!run_task(fn, s, tasks[t])) { s->violated = 1; _exit(3); }
                }
                if (!g_scratch.empty() && g_scratch_pid == getpid()) rm_rf(g_scratch);
                _exit(0);
            }
            pids[w] = p;
        }
        int alive = jobs; std::vector<char> done(jobs, 0);
        while (alive > 0) {
            bool progress = false;
            for (int w = 0; w < jobs; w++) if (!done[w]) {
                int ws; pid_t r = waitpid(pids[w], &ws, WNOHANG);
                Slot *s = &SH->slot[w];
                bool hang = false;
                if (r == 0) { uint64_t s0 = s->start_ns.load(); if (s0 && (now_ns() - s0) * 1e-9 > o.exec_timeout) { kill(pids[w], SIGKILL); waitpid(pids[w], &ws, 0); hang = true; r = pids[w]; } }
                if (r == pids[w]) {
                    done[w] = 1; alive--; progress = true;
                    if (hang || !(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) {
                        if (!bad) {
                            bad = true; bad_hang = hang; bad_trace.assign(s->trace, s->trace + s->len.load());
                            bad_log = slurp(g_scratch_base + "/w" + std::to_string(w) + ".log", 200000);
                            bad_hist.assign(s->hist, s->hist + std::min<uint32_t>(s->ntasks_done.load(), 1 << 16));
                            if (s->violated) { bad_msg = s->msg; bad_key = s->key; } else { bad_msg = (hang ? "hang" : "crash: " + crash_summary(bad_log)); bad_key = hang ? "hang" : "crash"; }
                            if (!s->violated && !hang && WIFSIGNALED(ws) && WTERMSIG(ws) == SIGKILL) { // memory guard or outside interference: not a verdict
                                fprintf(stderr, "mc: a worker was killed (SIGKILL) in part %s\n", name); bad = false; g_error = true;
                            }
                        }
                        SH->stop = 1;
                    }
                }
            }
            if (!progress) usleep(1500);
            if (now() - g_t0 > g_budget && !SH->stop) { SH->stop = 1; complete = false; fprintf(stderr, "mc: time budget reached in part %s\n", name); }
        }
        for (int w = 0; w < jobs; w++) { execs += SH->slot[w].execs; pruned += SH->slot[w].pruned; steps += SH->slot[w].steps; }
    }
    if (bad) {
        std::string m, k; bool ok = confirm(fn, bad_trace, o.exec_timeout, m, k, nullptr, nullptr);
        if (!ok && !bad_hang && !bad_hist.empty()) { ok = confirm(fn, bad_trace, o.exec_timeout, m, k, &tasks, &bad_hist); if (ok) m += " (reproduced only together with the executions before it in the same process: state carried over between operations)"; }
        if (ok) {
            if (!k.empty()) { bad_key = k; bad_msg = m; }
            write_replay(name, bad_trace, bad_key, bad_msg, bad_log);
            g_violations++; complete = false;
            printf("VIOLATED part=%s key=%s: %s\n", name, bad_key.c_str(), bad_msg.c_str());
        } else {
            fprintf(stderr, "mc: a failure did not reproduce on replay (part %s): [%s] %s\n", name, bad_key.c_str(), bad_msg.c_str());
            for (auto v : bad_trace) fprintf(stderr, " %d", v); fprintf(stderr, "\n");
            g_error = true; complete = false;
        }
    } else {
        // samples: a few executions written out (first, middle, last task)
        size_t want_s[3] = {0, tasks.size() / 2, tasks.empty() ? 0 : tasks.size() - 1};
        std::string sf = g_scratch_base + "/samples";
        pid_t p = fork();
        if (p == 0) {
            redirect_stderr(g_scratch_base + "/sample.log"); X_keep_notes = true; SH->stop = 0; X_splitting = true; X_split = MAXTRACE; // do not count
            FILE *f = fopen(sf.c_str(), "w");
            size_t last = (size_t)-1;
            for (size_t i : want_s) { if (i == last || i >= tasks.size()) continue; last = i; load(tasks[i]); run_one(fn, nullptr); std::string n = X_notes.substr(0, 600); for (auto &c : n) if (c == '\n') c = ' '; std::string ch; for (size_t j = 0; j < X_pos && j < 60; j++) ch += std::to_string(X_val[j]) + ","; fprintf(f, "%s choices=[%s] %s\n", name, ch.c_str(), n.c_str()); }
            fclose(f); _exit(0);
        }
        double ts = now(); int ss; while (waitpid(p, &ss, WNOHANG) == 0) { if (now() - ts > 60) { kill(p, SIGKILL); waitpid(p, &ss, 0); break; } usleep(1000); }
        std::string all = slurp(sf, 10000); size_t a = 0; while (a < all.size()) { size_t e = all.find('\n', a); if (e == std::string::npos) e = all.size(); samples.push_back(all.substr(a, e - a)); a = e + 1; }
    }
    std::map<std::string, uint64_t> outs;
    for (uint32_t i = 0; i < SH->nout && i < NOUT - 1; i++) outs[SH->out_name[i]] = SH->out_count[i];
    if (!bad && complete) for (auto &r : o.require) if (!outs.count(r)) { fprintf(stderr, "mc: part %s never produced the outcome '%s': the exploration is vacuous there\n", name, r.c_str()); g_error = true; }
    if (SH->set_full) complete = false;
    if (!complete) g_exhaustive = false;
    g_parts.push_back({name, execs, pruned, steps, tasks.size(), now() - t0, complete, samples, outs});
    fprintf(stderr, "[%s/%s] %zu tasks, %llu executions (%llu pruned), %llu transitions, states so far %llu, %.1f s%s\n", g_prop.c_str(), name, tasks.size(), (unsigned long long)execs, (unsigned long long)pruned, (unsigned long long)steps, (unsigned long long)SH->set_count.load(), now() - t0, complete ? "" : " (incomplete)");
    for (auto &kv : outs) fprintf(stderr, "      %-50s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
}

static std::string js(const std::string &s)
{
    std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\"";
}

int finish()
{
    double wall = now() - g_t0;
    uint64_t execs = 0, steps = 0, pruned = 0;
    for (auto &p : g_parts) { execs += p.execs; steps += p.steps; pruned += p.pruned; }
    int known_printed = 0;
    for (size_t i = 0; i < g_known.size() && i < NKNOWN; i++) if (SH->known_hit[i]) { printf("KNOWN-FINDING: property=%s %s\n", g_prop.c_str(), g_known[i].second.c_str()); known_printed++; }
    if (!g_out.empty()) {
        std::string tmp = g_out + ".tmp";
        FILE *f = fopen(tmp.c_str(), "w");
        if (!f) { perror("evidence"); return 2; }
        fprintf(f, "{\n \"property\": %s,\n \"tier\": %s,\n \"seed\": %llu,\n \"level\": %s,\n \"coverage\": {\n", js(g_prop).c_str(), js(g_tier).c_str(), (unsigned long long)g_seed, js(g_level).c_str());
        if (g_level == "model_checking") fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n", (unsigned long long)SH->set_count.load(), (unsigned long long)steps, (unsigned long long)execs);
        else fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)execs, (unsigned long long)SH->nt_count.load());
        fprintf(f, "  \"rule\": %s,\n  \"exhaustive\": %s,\n  \"executions_cut_by_state_pruning\": %llu,\n", js(g_rule).c_str(), g_exhaustive ? "true" : "false", (unsigned long long)pruned);
        fprintf(f, "  \"parts\": [");
        for (size_t i = 0; i < g_parts.size(); i++) {
            auto &p = g_parts[i];
            fprintf(f, "%s\n   {\"name\": %s, \"executions\": %llu, \"transitions\": %llu, \"tasks\": %llu, \"complete\": %s, \"wall_s\": %.2f, \"outcomes\": {", i ? "," : "", js(p.name).c_str(), (unsigned long long)p.execs, (unsigned long long)p.steps, (unsigned long long)p.tasks, p.complete ? "true" : "false", p.wall);
            bool first = true; for (auto &kv : p.outcomes) { fprintf(f, "%s%s: %llu", first ? "" : ", ", js(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
            fprintf(f, "}}");
        }
        fprintf(f, "\n  ],\n  \"samples\": [");
        bool first = true; for (auto &p : g_parts) for (auto &s : p.samples) { fprintf(f, "%s\n   %s", first ? "" : ",", js(s).c_str()); first = false; }
        if (first) fprintf(f, "\"none: the run stopped before the first part completed\"");
        fprintf(f, "\n  ]\n },\n \"assumptions\": [");
        for (size_t i = 0; i < g_assume.size(); i++) fprintf(f, "%s%s", i ? ", " : "", js(g_assume[i]).c_str());
        fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, g_violations);
        fclose(f); rename(tmp.c_str(), g_out.c_str());
    }
    rm_rf(g_scratch_base);
    printf("%s %s: %llu executions, %llu transitions, %llu distinct states, %zu parts, exhaustive within bounds: %s, %.1f s\n", g_prop.c_str(), g_tier.c_str(), (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)SH->set_count.load(), g_parts.size(), g_exhaustive ? "yes" : "no", wall);
    if (g_violations) { printf("VIOLATION property=%s replay=%s\n", g_prop.c_str(), g_violation_replay.c_str()); return 1; }
    if (g_error) return 2;
    return 0;
}
}
