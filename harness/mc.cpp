#include "mc.hpp"
#include <atomic>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <exception>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

std::vector<Space>& spaces() { static std::vector<Space> s; return s; }
static bool g_thorough = false;
bool thorough() { return g_thorough; }

static const int MAXW = 64, MAXOUT = 64, OUTLEN = 40, MAXFAIL = 4096;

struct FailRec { u64 idx; int kind; char msg[400]; };   // kind 0 mismatch 1 assertion 2 exception 3 crash 4 hang
struct WorkerSlot {
    std::atomic<u64> cur;        // index+1 of the case that is running, 0 when idle
    std::atomic<u64> lo, hi;     // remaining chunk
    u64 transitions, states, skipped, cases;
    int nout;
    char out[MAXOUT][OUTLEN];
    u64 outn[MAXOUT];
};
struct Shared {
    char text[16384];            // description of the case being replayed (survives a crash)
    std::atomic<u64> next;
    std::atomic<int> stop;
    std::atomic<u64> nfail, nhang;
    std::atomic<u64> distinct, table_full;
    FailRec fails[MAXFAIL];
    WorkerSlot w[MAXW];
};
static Shared* S = nullptr;
static std::atomic<u64>* HT = nullptr;
static u64 HTN = 0;
static WorkerSlot* me = nullptr;
static sigjmp_buf jb;
static volatile sig_atomic_t jb_ok = 0;

static std::string vfmt(const char* f, va_list ap) {
    va_list b; va_copy(b, ap);
    int n = vsnprintf(nullptr, 0, f, b); va_end(b);
    std::string s(n, 0);
    vsnprintf(&s[0], n + 1, f, ap);
    return s;
}
void Ctx::in(const char* f, ...) { if (!verbose) return; va_list ap; va_start(ap, f); text += vfmt(f, ap); va_end(ap); if (S) snprintf(S->text, sizeof S->text, "%s", text.c_str()); }
void Ctx::note(const char* f, ...) { if (!verbose) return; va_list ap; va_start(ap, f); log += vfmt(f, ap); log += '\n'; va_end(ap); }
bool Ctx::check(bool ok, const char* f, ...) {
    ++transitions;
    if (ok) return true;
    va_list ap; va_start(ap, f);
    std::string m = vfmt(f, ap); va_end(ap);
    if (!failed) { failed = true; message = m; }
    if (verbose) log += "MISMATCH: " + m + "\n";
    return false;
}
void Ctx::state(u64 h) {
    ++states;
    if (!HT) return;
    if (h == 0) h = 1;
    u64 p = mix(77, h) & (HTN - 1);
    for (int k = 0; k < 64; ++k, p = (p + 1) & (HTN - 1)) {
        u64 e = HT[p].load(std::memory_order_relaxed);
        if (e == h) return;
        if (e == 0) {
            u64 z = 0;
            if (HT[p].compare_exchange_strong(z, h)) { S->distinct.fetch_add(1, std::memory_order_relaxed); return; }
            if (z == h) return;
        }
    }
    S->table_full.fetch_add(1, std::memory_order_relaxed);
}
void Ctx::outcome(const char* l) {
    if (!me) return;
    for (int i = 0; i < me->nout; ++i) if (!strncmp(me->out[i], l, OUTLEN - 1)) { ++me->outn[i]; return; }
    if (me->nout < MAXOUT) { strncpy(me->out[me->nout], l, OUTLEN - 1); me->outn[me->nout++] = 1; }
}
void Ctx::outcome(int v) { char b[24]; snprintf(b, sizeof b, "%d", v); outcome(b); }

static double cpu_of(pid_t p) {
    clockid_t c; timespec t;
    if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0;
    return t.tv_sec + 1e-9 * t.tv_nsec;
}
static double wall() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static void on_trap(int) { if (jb_ok) { jb_ok = 0; siglongjmp(jb, 1); } _exit(99); }

// runs one case; returns kind (-1 when it held)
static int run_case(Space& sp, u64 i, Ctx& c, std::string& msg) {
    c.reset();
    if (sigsetjmp(jb, 1)) { msg = "assertion inside the library failed"; return 1; }
    jb_ok = 1;
    try { sp.fn(i, c); }
    catch (FailStop&) {}
    catch (std::exception& e) { jb_ok = 0; msg = std::string("escaped exception: ") + e.what(); return 2; }
    catch (...) { jb_ok = 0; msg = "escaped exception of unknown type"; return 2; }
    jb_ok = 0;
    if (c.failed) { msg = c.message; return 0; }
    return -1;
}
static void add_fail(u64 i, int kind, const std::string& m) {
    u64 k = S->nfail.fetch_add(1);
    if (k < MAXFAIL) { S->fails[k].idx = i; S->fails[k].kind = kind; snprintf(S->fails[k].msg, sizeof S->fails[k].msg, "%s", m.c_str()); }
}
static void quiet_io() {
    int d = open("/dev/null", O_RDWR);
    dup2(d, 2); dup2(d, 1);
    if (chdir("/tmp")) {}
}

static void worker(Space& sp, u64 n, u64 chunk, int w, u64 maxfail) {
    me = &S->w[w];
    signal(SIGTRAP, on_trap);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 6ull << 30;
#ifndef MC_ASAN
    setrlimit(RLIMIT_AS, &rl);
#endif
    quiet_io();
    Ctx c; std::string m;
    for (;;) {
        u64 lo = me->lo, hi = me->hi;
        if (lo >= hi) {
            lo = S->next.fetch_add(chunk);
            if (lo >= n || S->stop) break;
            hi = std::min(n, lo + chunk);
            me->hi = hi; me->lo = lo;
        }
        for (u64 i = lo; i < hi; ++i) {
            me->lo = i + 1;
            me->cur = i + 1;
            int k = run_case(sp, i, c, m);
            me->cur = 0;
            if (k >= 0) { add_fail(i, k, m); if (S->nfail >= maxfail) { S->stop = 1; break; } }
            if (c.case_skipped) ++me->skipped; else ++me->cases;
            me->transitions += c.transitions; c.transitions = 0;
            me->states += c.states; c.states = 0;
        }
        if (S->stop) break;
    }
    _exit(0);
}

struct SpaceResult { u64 n, cases, skipped, transitions, states, distinct, table_full, nfail; double wall; bool capped; std::map<std::string, u64> out; std::vector<FailRec> fails; };

// Runs the cases; case_limit: cpu seconds a case may take before it is called hung (then re-run alone).
static SpaceResult explore(Space& sp, u64 n, int W, u64 maxfail, double case_limit) {
    double t0 = wall();
    memset((void*)S, 0, sizeof *S);
    memset((void*)HT, 0, HTN * 8);
    u64 chunk = std::max<u64>(1, std::min<u64>(4096, n / (W * 16) + 1));
    std::vector<pid_t> pid(W, 0);
    std::vector<u64> seen(W, 0); std::vector<pid_t> seenpid(W, 0); std::vector<double> since(W, 0); // the case each worker was first seen in, and its cpu time then
    auto spawn = [&](int w) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) worker(sp, n, chunk, w, maxfail);
        pid[w] = p;
    };
    for (int w = 0; w < W; ++w) spawn(w);
    int alive = W;
    while (alive) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int w = -1; for (int k = 0; k < W; ++k) if (pid[k] == p) w = k;
            if (w < 0) continue;
            pid[w] = 0;
            bool normal = WIFEXITED(st) && WEXITSTATUS(st) == 0;
            if (normal) { --alive; continue; }
            u64 cur = S->w[w].cur;
            if (cur) {
                char b[100];
                if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                else snprintf(b, sizeof b, "crash: exit %d", WEXITSTATUS(st));
                add_fail(cur - 1, 3, b); ++S->w[w].cases;
                S->w[w].cur = 0;
                if (S->nfail >= maxfail) S->stop = 1;
            } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !S->stop) {
                // killed as hung (recorded below) or by memory pressure
            }
            if (S->stop) { --alive; continue; }
            spawn(w);
            continue;
        }
        for (int w = 0; w < W; ++w) if (pid[w]) {
            u64 cur = S->w[w].cur;
            if (!cur) continue;
            double now = cpu_of(pid[w]);
            if (seen[w] != cur || seenpid[w] != pid[w]) { seen[w] = cur; seenpid[w] = pid[w]; since[w] = now; }
            double used = now - since[w];
            if (used > case_limit && S->w[w].cur == cur) {
                add_fail(cur - 1, 4, "hang"); ++S->w[w].cases;
                S->w[w].cur = 0; ++S->nhang;
                if (S->nfail >= maxfail || S->nhang >= 6) S->stop = 1;
                kill(pid[w], SIGKILL);
            }
        }
        usleep(2000);
    }
    SpaceResult r;
    r.n = n; r.cases = r.skipped = r.transitions = r.states = 0;
    for (int w = 0; w < W; ++w) {
        auto& s = S->w[w];
        r.cases += s.cases; r.skipped += s.skipped; r.transitions += s.transitions; r.states += s.states;
        for (int k = 0; k < s.nout; ++k) r.out[s.out[k]] += s.outn[k];
    }
    r.distinct = S->distinct; r.table_full = S->table_full;
    r.nfail = S->nfail; r.capped = S->stop;
    for (u64 k = 0; k < std::min<u64>(r.nfail, MAXFAIL); ++k) r.fails.push_back(S->fails[k]);
    std::sort(r.fails.begin(), r.fails.end(), [](const FailRec& a, const FailRec& b) { return a.idx < b.idx; });
    r.wall = wall() - t0;
    return r;
}

// Replays one case alone in a fresh process: returns "kind|message" plus description, or kind -1.
struct Replay { int kind; std::string msg, text, log; };
static Replay replay(Space& sp, u64 i, double limit) {
    int pf[2]; if (pipe(pf)) abort();
    fflush(stdout);
    S->text[0] = 0;
    pid_t p = fork();
    if (p == 0) {
        ::close(pf[0]);
        signal(SIGTRAP, on_trap);
        rlimit rl{(rlim_t)limit, (rlim_t)limit + 1}; setrlimit(RLIMIT_CPU, &rl);
        rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        rl.rlim_cur = rl.rlim_max = 6ull << 30;
#ifndef MC_ASAN
        setrlimit(RLIMIT_AS, &rl);
#endif
        quiet_io();
        Ctx c; std::string m;
        c.verbose = true;
        int k = run_case(sp, i, c, m);
        std::string o; o += char('0' + k + 1); o += m; o += '\x1e'; o += c.text; o += '\x1e'; o += c.log;
        size_t off = 0; while (off < o.size()) { ssize_t q = write(pf[1], o.data() + off, o.size() - off); if (q <= 0) break; off += q; }
        _exit(0);
    }
    ::close(pf[1]);
    std::string o; char b[65536]; ssize_t q;
    while ((q = read(pf[0], b, sizeof b)) > 0) o.append(b, q);
    ::close(pf[0]);
    int st; waitpid(p, &st, 0);
    Replay r;
    r.text = S->text;
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        char m[100];
        if (s == SIGXCPU || s == SIGKILL) { r.kind = 4; snprintf(m, sizeof m, "does not terminate within %.0f s of cpu time", limit); }
        else { r.kind = 3; snprintf(m, sizeof m, "crash: signal %d (%s)", s, strsignal(s)); }
        r.msg = m;
        return r;
    }
    if (o.empty()) { r.kind = 3; r.msg = "crash: no result"; return r; }
    r.kind = o[0] - '0' - 1;
    size_t a = o.find('\x1e'), z = o.find('\x1e', a + 1);
    r.msg = o.substr(1, a - 1); r.text = o.substr(a + 1, z - a - 1); r.log = o.substr(z + 1);
    return r;
}

static std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

int main_(int argc, char** argv) {
    std::string out, only, rep;
    int W = (int)sysconf(_SC_NPROCESSORS_ONLN);
    u64 maxfail = 200; double limit = 6, budget = 1e9;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--tier") g_thorough = nx() == "thorough";
        else if (a == "--out") out = nx();
        else if (a == "--space") only = nx();
        else if (a == "--replay") rep = nx();
        else if (a == "--workers") W = atoi(nx().c_str());
        else if (a == "--maxfail") maxfail = std::min<u64>(MAXFAIL, strtoull(nx().c_str(), 0, 10));
        else if (a == "--case-limit") limit = atof(nx().c_str());
        else if (a == "--budget") budget = atof(nx().c_str());
    }
    if (W < 1) W = 1; if (W > MAXW) W = MAXW;
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    HTN = g_thorough ? (1ull << 26) : (1ull << 24);
    HT = (std::atomic<u64>*)mmap(nullptr, HTN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED || HT == MAP_FAILED) { perror("mmap"); return 3; }
    std::set<std::string> names;
    for (auto& s : spaces()) if (!names.insert(s.name).second) { fprintf(stderr, "duplicate space %s\n", s.name.c_str()); return 3; }
    if (!rep.empty()) {   // space:index
        size_t p = rep.rfind(':');
        for (auto& s : spaces()) if (s.name == rep.substr(0, p)) {
            Replay r = replay(s, strtoull(rep.c_str() + p + 1, 0, 10), 90);
            printf("case: %s\n%s%s%s\n", r.text.c_str(), r.log.c_str(), r.kind < 0 ? "HELD" : "FAILED: ", r.msg.c_str());
            return r.kind < 0 ? 0 : 1;
        }
        fprintf(stderr, "no such space\n"); return 3;
    }
    std::string o = "{\"spaces\":[";
    bool first = true;
    double T0 = wall();
    u64 total_fail = 0, total_hang = 0; bool cut = false;
    for (auto& sp : spaces()) {
        if (!only.empty() && sp.name != only) continue;
        u64 n = g_thorough ? sp.n_thorough : sp.n_quick;
        if (n == 0) continue;
        if (total_fail >= maxfail || total_hang >= 6) { cut = true; break; }
        if (wall() - T0 > budget) { fprintf(stderr, "budget exceeded before %s\n", sp.name.c_str()); return 4; }
        SpaceResult r = explore(sp, n, W, maxfail, limit);
        if (!first) o += ",";
        first = false;
        char b[700];
        snprintf(b, sizeof b, "{\"name\":%s,\"bounds\":%s,\"n\":%llu,\"cases\":%llu,\"skipped\":%llu,\"transitions\":%llu,\"distinct_states\":%llu,\"table_full\":%llu,\"failing\":%llu,\"capped\":%s,\"wall\":%.2f,\"outcomes\":{",
                 js(sp.name).c_str(), js(sp.bounds).c_str(), (unsigned long long)r.n, (unsigned long long)r.cases, (unsigned long long)r.skipped, (unsigned long long)r.transitions, (unsigned long long)r.distinct, (unsigned long long)r.table_full, (unsigned long long)r.nfail, r.capped ? "true" : "false", r.wall);
        o += b;
        bool f2 = true;
        for (auto& kv : r.out) { if (!f2) o += ","; f2 = false; o += js(kv.first) + ":" + std::to_string(kv.second); }
        o += "},\"samples\":[";
        f2 = true;
        for (u64 k : {n / 7, n / 2}) {
            Replay q = replay(sp, k, 90);
            if (!f2) o += ","; f2 = false;
            o += js(sp.name + ":" + std::to_string(k) + " " + q.text + (q.kind < 0 ? " -> held" : " -> " + q.msg));
        }
        o += "],\"fails\":[";
        f2 = true;
        for (auto& f : r.fails) {
            double rl = f.kind == 4 ? 2 * limit : 90;
            Replay a = replay(sp, f.idx, rl), z = f.kind == 4 ? a : replay(sp, f.idx, rl);
            bool stable = a.kind == z.kind && a.msg == z.msg && a.kind >= 0;
            if (a.kind < 0 && z.kind < 0) { fprintf(stderr, "not reproduced: %s:%llu (%s)\n", sp.name.c_str(), (unsigned long long)f.idx, f.msg); }
            if (!f2) o += ","; f2 = false;
            o += "{\"index\":" + std::to_string(f.idx) + ",\"kind\":" + std::to_string(a.kind) + ",\"stable\":" + (stable ? "true" : "false") + ",\"first\":" + js(f.msg) + ",\"msg\":" + js(a.msg) + ",\"text\":" + js(a.text) + ",\"log\":" + js(a.log) + "}";
        }
        o += "]}";
        total_fail += r.nfail; total_hang += S->nhang;
        fprintf(stderr, "%-34s n=%-10llu cases=%-10llu trans=%-11llu states=%-10llu fail=%llu  %.1fs\n", sp.name.c_str(), (unsigned long long)n, (unsigned long long)r.cases, (unsigned long long)r.transitions, (unsigned long long)r.distinct, (unsigned long long)r.nfail, r.wall);
    }
    o += "],\"cut\":"; o += cut ? "true}" : "false}";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fwrite(o.data(), 1, o.size(), f); fclose(f); }
    return 0;
}

} // namespace mc

int main(int argc, char** argv) { return mc::main_(argc, argv); }
