#include "core.hpp"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <string>

namespace sim {

Result *R = nullptr;
void (*onChildStart)() = nullptr;

// ---------------------------------------------------------------- child state
static bool g_replay = false;
static uint64_t g_rng = 0;
static const uint32_t *g_in = nullptr;
static uint32_t g_nin = 0;

static inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

uint32_t choose(uint32_t n) {
    if (n <= 1) return 0;
    uint32_t v;
    if (g_replay) v = R->nchoices < g_nin ? g_in[R->nchoices] % n : 0;
    else v = (uint32_t)((splitmix(g_rng) >> 11) % n);
    if (R->nchoices >= kMaxChoices) internalError("too many choices");
    R->choices[R->nchoices++] = v;
    return v;
}
uint32_t chooseLog(uint32_t n) {
    if (n <= 1) return 0;
    // pick a scale, then a value below it
    uint32_t bits = 0; while ((1u << bits) < n && bits < 31) bits++;
    uint32_t b = choose(bits + 1);
    uint32_t m = b >= 31 ? n : std::min<uint32_t>(n, 1u << b);
    return choose(m);
}
bool replaying() { return g_replay; }

static void appendLog(const char *s, size_t n) {
    if (R->loglen + n + 2 >= kMaxLog) return;
    memcpy(R->log + R->loglen, s, n); R->loglen += n;
    R->log[R->loglen++] = '\n'; R->log[R->loglen] = 0;
}
static thread_local char tlbuf[8192];
void ev(const char *f, ...) {
    va_list ap; va_start(ap, f); int n = vsnprintf(tlbuf, sizeof tlbuf, f, ap); va_end(ap);
    if (n > (int)sizeof tlbuf - 1) n = sizeof tlbuf - 1;
    for (int i = 0; i < n; i++) { R->hash ^= (unsigned char)tlbuf[i]; R->hash *= 1099511628211ull; }
    R->hash = mix(R->hash, 0x11);
    appendLog(tlbuf, n);
}
void evs(const std::string &s) {
    for (unsigned char c : s) { R->hash ^= c; R->hash *= 1099511628211ull; }
    R->hash = mix(R->hash, 0x12);
    appendLog(s.data(), std::min<size_t>(s.size(), 4000));
}
void note(const char *f, ...) {
    va_list ap; va_start(ap, f); int n = vsnprintf(tlbuf, sizeof tlbuf, f, ap); va_end(ap);
    if (n > (int)sizeof tlbuf - 1) n = sizeof tlbuf - 1;
    appendLog(tlbuf, n);
}
void where(const char *f, ...) {
    va_list ap; va_start(ap, f); vsnprintf(R->where, sizeof R->where, f, ap); va_end(ap);
}
static FaultCount *fc(const char *k) {
    for (uint32_t i = 0; i < R->nfaults; i++) if (!strncmp(R->faults[i].name, k, 31)) return &R->faults[i];
    if (R->nfaults >= kMaxFaultKinds) return &R->faults[kMaxFaultKinds - 1];
    FaultCount *f = &R->faults[R->nfaults++];
    strncpy(f->name, k, 31); f->injected = f->fired = 0; return f;
}
void faultPlanned(const char *k, unsigned n) { fc(k)->injected += n; }
void faultFired(const char *k, unsigned n) { fc(k)->fired += n; }
void sig(uint64_t h) { if (R->nsigs < kMaxSigs) R->sigs[R->nsigs++] = h; }
void nontrivial() { R->nontrivial = 1; }
void evaluated(unsigned n) { R->evaluations += n; }
void steps(uint64_t n) { R->steps += n; }
void simtime(uint64_t ns) { R->simtime_ns += ns; }
[[noreturn]] void violation(const std::string &cls, const std::string &detail) {
    strncpy(R->cls, cls.c_str(), sizeof R->cls - 1); R->cls[sizeof R->cls - 1] = 0;
    strncpy(R->detail, detail.c_str(), sizeof R->detail - 1);
    ev("VIOLATION %s", cls.c_str());
    R->status = kViolation; _exit(0);
}
[[noreturn]] void internalError(const std::string &d) {
    strncpy(R->detail, d.c_str(), sizeof R->detail - 1); R->status = kInternal; _exit(0);
}
[[noreturn]] void finish() { R->status = kOk; _exit(0); }
std::string fmt(const char *f, ...) {
    char b[8192]; va_list ap; va_start(ap, f); int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    return std::string(b, n);
}

// ---------------------------------------------------------------- scenarios
static std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
Registrar::Registrar(const Scenario &s) { scenarios().push_back(s); }
static const Scenario *g_scn = nullptr;

// ---------------------------------------------------------------- parent side
struct RunOut {
    uint32_t status = 0; std::string cls, detail, log, where; uint64_t hash = 0;
    std::vector<uint32_t> choices;
};
static int g_errfd = -1;
static unsigned g_cpulimit = 20;
static unsigned g_walllimit = 120;

static std::string readErr() {
    std::string s; char b[4096]; lseek(g_errfd, 0, SEEK_SET); ssize_t n;
    while ((n = read(g_errfd, b, sizeof b)) > 0) { s.append(b, n); if (s.size() > 200000) break; }
    return s;
}

static void resetResult() {
    // the big arrays need no clearing
    R->status = kUnfinished; R->cls[0] = R->detail[0] = R->where[0] = 0; R->hash = 1469598103934665603ull;
    R->steps = R->simtime_ns = 0; R->evaluations = R->nchoices = R->nsigs = R->nfaults = R->loglen = R->nontrivial = 0;
    R->log[0] = 0;
}

// Every run is forked from the zygote: a fresh execution of this program, with a fixed argument list and
// environment, that has done nothing but its static initialisation.  The heap, the stack and the descriptors a
// run starts with are therefore the same in the search, in the gates and in a later replay.
struct Order { uint32_t replay, nin, cpu, wall; uint64_t seed; uint32_t in[kMaxChoices]; };
static Order *g_order = nullptr;
static int g_cmd = -1, g_ans = -1;
enum { kFdResult = 100, kFdOrder, kFdErr, kFdCmd, kFdAns };

static void *shared(int fd, size_t n) {
    void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return p;
}
static bool full(ssize_t (*f)(int, void *, size_t), int fd, void *b, size_t n) {
    for (size_t k = 0; k < n;) { ssize_t r = f(fd, (char *)b + k, n - k); if (r < 0 && errno == EINTR) continue; if (r <= 0) return false; k += (size_t)r; }
    return true;
}
static ssize_t put(int fd, void *b, size_t n) { return write(fd, b, n); }
static ssize_t take(int fd, void *b, size_t n) { return read(fd, b, n); }

[[noreturn]] static void zygote(const char *prop) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (getppid() == 1) _exit(2);
    R = (Result *)shared(kFdResult, sizeof(Result)); g_order = (Order *)shared(kFdOrder, sizeof(Order));
    for (auto &s : scenarios()) if (!strcmp(prop, s.property)) g_scn = &s;
    if (!g_scn) _exit(2);
    char c;
    while (full(take, kFdCmd, &c, 1)) {
        pid_t pid = fork();
        if (pid < 0) _exit(2);
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            dup2(kFdErr, 2); for (int f = kFdResult; f <= kFdAns; f++) close(f);
            g_replay = g_order->replay; g_rng = g_order->seed; g_in = g_order->in; g_nin = g_order->nin;
            struct rlimit rl { g_order->cpu, g_order->cpu + 5 }; setrlimit(RLIMIT_CPU, &rl);
            alarm(g_order->wall);
            struct rlimit rc { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
            if (onChildStart) onChildStart();
            g_scn->run();
            finish();
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }   // the child ends itself by RLIMIT_CPU or alarm() if it hangs
        if (!full(put, kFdAns, &st, sizeof st)) _exit(0);
    }
    _exit(0);
}
static void startZygote(const char *prop) {
    int r = memfd_create("simresult", MFD_CLOEXEC), o = memfd_create("simorder", MFD_CLOEXEC), cmd[2], ans[2];
    g_errfd = memfd_create("simerr", MFD_CLOEXEC);
    if (r < 0 || o < 0 || g_errfd < 0 || ftruncate(r, sizeof(Result)) || ftruncate(o, sizeof(Order)) || pipe2(cmd, O_CLOEXEC) || pipe2(ans, O_CLOEXEC)) { perror("setup"); exit(2); }
    R = (Result *)shared(r, sizeof(Result)); g_order = (Order *)shared(o, sizeof(Order));
    std::vector<std::string> env = {"SIM_NOASLR=1", "PATH=/usr/bin:/bin"}; if (const char *l = getenv("LOCPATH")) env.push_back(std::string("LOCPATH=") + l);
    std::vector<char *> ev; for (auto &e : env) ev.push_back(&e[0]); ev.push_back(nullptr);
    const char *av[] = {"sim", "--zygote", prop, nullptr};
    fflush(stdout); fflush(stderr);
    pid_t pid = fork(); if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0) {
        int src[] = {r, o, g_errfd, cmd[0], ans[1]}, hi[5];
        for (int k = 0; k < 5; k++) hi[k] = fcntl(src[k], F_DUPFD_CLOEXEC, 200);
        for (int k = 0; k < 5; k++) if (hi[k] < 0 || dup2(hi[k], kFdResult + k) < 0) _exit(2);
        int nul = open("/dev/null", O_RDWR); if (nul < 0 || dup2(nul, 0) < 0 || dup2(nul, 1) < 0) _exit(2); if (nul > 2) close(nul);
        for (int f = 3; f < kFdResult; f++) close(f);
        execve("/proc/self/exe", const_cast<char *const *>(av), ev.data()); _exit(2);
    }
    close(cmd[0]); close(ans[1]); g_cmd = cmd[1]; g_ans = ans[0]; signal(SIGPIPE, SIG_IGN);
}

static void runOnce(bool replay, uint64_t seed, const std::vector<uint32_t> *in, RunOut *out) {
    resetResult();
    if (ftruncate(g_errfd, 0)) {}
    lseek(g_errfd, 0, SEEK_SET);
    g_order->replay = replay; g_order->seed = seed; g_order->cpu = g_cpulimit; g_order->wall = g_walllimit;
    g_order->nin = in ? (uint32_t)std::min<size_t>(in->size(), kMaxChoices) : 0; for (uint32_t k = 0; k < g_order->nin; k++) g_order->in[k] = (*in)[k];
    char c = 1; int st = 0;
    if (!full(put, g_cmd, &c, 1) || !full(take, g_ans, &st, sizeof st)) { fprintf(stderr, "the process that starts the runs has ended\n"); exit(2); }
    std::string cls, detail;
    if (R->status == kUnfinished) {
        std::string e = readErr();
        if (WIFSIGNALED(st)) {
            int sg = WTERMSIG(st);
            if (sg == SIGXCPU || sg == SIGKILL || sg == SIGALRM) cls = "hang";
            else cls = fmt("crash:%s", sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGBUS ? "SIGBUS" : sg == SIGFPE ? "SIGFPE" : "signal");
        } else cls = fmt("exit:%d", WEXITSTATUS(st));
        size_t p = e.find("ERROR: AddressSanitizer: ");
        if (p != std::string::npos) {
            size_t q = p + 25, z = q; while (z < e.size() && !isspace((unsigned char)e[z])) z++;
            cls = "asan:" + e.substr(q, z - q);
            detail = e.substr(p, 3500);
        } else {
            if (e.find("terminate called") != std::string::npos || e.find("terminating") != std::string::npos) cls = "crash:terminate";
            detail = e.substr(0, 3500);
        }
        strncpy(R->cls, cls.c_str(), sizeof R->cls - 1); R->cls[sizeof R->cls - 1] = 0;
        std::string d = std::string("while ") + R->where + "\n" + detail;
        strncpy(R->detail, d.c_str(), sizeof R->detail - 1); R->detail[sizeof R->detail - 1] = 0;
        R->status = kViolation;
        R->hash = mix(R->hash, hashStr(cls));
    }
    if (out) {
        out->status = R->status; out->cls = R->cls; out->detail = R->detail; out->where = R->where;
        out->log.assign(R->log, R->loglen); out->hash = R->hash;
        out->choices.assign(R->choices, R->choices + R->nchoices);
    }
}

static std::string jsonEsc(const std::string &s) {
    std::string o; o.reserve(s.size() + 8);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

// Greedy minimisation over the choice list: the violation class must persist.
static RunOut minimise(const RunOut &orig, double budget_s, unsigned *tries) {
    RunOut best = orig;
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto left = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
        return budget_s - ((t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9); };
    auto attempt = [&](const std::vector<uint32_t> &c) -> bool {
        RunOut o; runOnce(true, 0, &c, &o); ++*tries;
        if (o.status != kViolation || o.cls != best.cls) return false;
        // normalised choices must be no larger
        auto trimmed = o.choices; while (!trimmed.empty() && trimmed.back() == 0) trimmed.pop_back();
        auto cur = best.choices; while (!cur.empty() && cur.back() == 0) cur.pop_back();
        if (trimmed.size() > cur.size()) return false;
        if (trimmed.size() == cur.size() && !std::lexicographical_compare(trimmed.begin(), trimmed.end(), cur.begin(), cur.end())) return false;
        best = o; best.choices = trimmed; return true;
    };
    bool improved = true;
    while (improved && left() > 0) {
        improved = false;
        // truncate the tail
        for (size_t n = best.choices.size() / 2; n > 0 && left() > 0; n /= 2) {
            if (best.choices.size() <= n) continue;
            std::vector<uint32_t> c(best.choices.begin(), best.choices.end() - n);
            if (attempt(c)) { improved = true; n = best.choices.size(); }
        }
        // delete and zero chunks
        for (size_t sz = std::max<size_t>(1, best.choices.size() / 4); sz >= 1 && left() > 0; sz /= 2) {
            for (size_t i = 0; i < best.choices.size() && left() > 0;) {
                std::vector<uint32_t> c = best.choices;
                size_t e = std::min(c.size(), i + sz);
                c.erase(c.begin() + i, c.begin() + e);
                if (attempt(c)) { improved = true; continue; }
                c = best.choices; bool nz = false;
                for (size_t k = i; k < e; k++) { if (c[k]) nz = true; c[k] = 0; }
                if (nz && attempt(c)) improved = true;
                i += sz;
            }
            if (sz == 1) break;
        }
        // lower single values
        for (size_t i = 0; i < best.choices.size() && left() > 0; i++) {
            while (i < best.choices.size() && best.choices[i] > 0 && left() > 0) {
                std::vector<uint32_t> c = best.choices;
                c[i] /= 2;
                if (attempt(c)) { improved = true; continue; }
                c = best.choices; c[i] -= 1;
                if (attempt(c)) { improved = true; continue; }
                break;
            }
        }
        if (best.choices.size() > 3000) break;
    }
    return best;
}

static std::string readFile(const char *p) {
    std::string s; FILE *f = fopen(p, "rb"); if (!f) return s; char b[65536]; size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f); return s;
}

static bool matchesAll(const std::string &all, const std::string &pat) {   // substrings joined by &&
    size_t p = 0;
    for (;;) { size_t q = pat.find("&&", p); if (all.find(pat.substr(p, q == std::string::npos ? q : q - p)) == std::string::npos) return false; if (q == std::string::npos) return true; p = q + 2; }
}

int driverMain(int argc, char **argv) {
    { struct rlimit st; if (getrlimit(RLIMIT_STACK, &st) == 0) { rlim_t w = 64u << 20; if (st.rlim_max != RLIM_INFINITY && st.rlim_max < w) w = st.rlim_max; st.rlim_cur = w; setrlimit(RLIMIT_STACK, &st); } }
    // fixed address layout: re-exec once without ASLR where permitted
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1)
            execv("/proc/self/exe", argv);
    }
    if (argc == 3 && !strcmp(argv[1], "--zygote")) zygote(argv[2]);
    std::string prop, out, replay; uint64_t base = 1; unsigned start = 0, stride = 1, runs = 100; double cap = 600, minb = 30; bool dump = false;
    std::vector<std::string> ignore;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto next = [&] { return std::string(++i < argc ? argv[i] : ""); };
        if (a == "--prop") prop = next(); else if (a == "--seed") base = strtoull(next().c_str(), 0, 10);
        else if (a == "--start") start = atoi(next().c_str()); else if (a == "--stride") stride = atoi(next().c_str());
        else if (a == "--runs") runs = atoi(next().c_str()); else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--out") out = next(); else if (a == "--replay") replay = next();
        else if (a == "--min") minb = atof(next().c_str()); else if (a == "--dump") dump = true;
        else if (a == "--ignore") ignore.push_back(next());
        else if (a == "--cpu") g_cpulimit = atoi(next().c_str());
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    for (auto &s : scenarios()) if (prop == s.property) g_scn = &s;
    if (!g_scn) { fprintf(stderr, "no scenario %s\n", prop.c_str()); return 2; }
    startZygote(prop.c_str());

    if (!replay.empty()) {
        // replay file: text, first line "choices: a b c ...", see check.py
        std::string s = readFile(replay.c_str());
        size_t p = s.find("\"choices\":"); if (p == std::string::npos) { fprintf(stderr, "no choices in %s\n", replay.c_str()); return 2; }
        p = s.find('[', p) + 1; std::vector<uint32_t> c;
        while (p < s.size() && s[p] != ']') { while (p < s.size() && !isdigit((unsigned char)s[p]) && s[p] != ']') p++; if (s[p] == ']') break;
            c.push_back(strtoul(s.c_str() + p, nullptr, 10)); while (p < s.size() && isdigit((unsigned char)s[p])) p++; }
        RunOut o; runOnce(true, 0, &c, &o);
        printf("{\"status\":%u,\"cls\":\"%s\",\"hash\":\"%016llx\",\"detail\":\"%s\",\"log\":\"%s\"}\n", o.status, jsonEsc(o.cls).c_str(),
               (unsigned long long)o.hash, jsonEsc(o.detail).c_str(), jsonEsc(o.log).c_str());
        return o.status == kViolation ? 1 : 0;
    }

    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    auto elapsed = [&] { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) / 1e9; };
    uint64_t done = 0, nontriv = 0, evals = 0, st = 0, simns = 0;
    std::map<std::string, std::pair<uint64_t, uint64_t>> faults;
    std::map<std::string, uint64_t> ignored;
    std::map<std::string, std::string> ignoredSample;
    std::unordered_set<uint64_t> sigs, ntHashes;
    std::vector<std::string> samples;
    std::string viol; bool capped = false; std::string internal;
    uint64_t gateChecks = 0, gateBad = 0; std::string gateDetail;
    for (unsigned i = start; i < runs; i += stride) {
        if (elapsed() > cap) { capped = true; break; }
        uint64_t s = base * 0x9e3779b97f4a7c15ull + hashStr(prop); splitmix(s); s ^= (uint64_t)i * 0xd1342543de82ef95ull; uint64_t seed = splitmix(s);
        RunOut o; runOnce(false, seed, nullptr, &o);
        done++;
        if (dump) { printf("--- run %u status %u cls %s choices %zu hash %016llx\n%s\n%s\n", i, o.status, o.cls.c_str(), o.choices.size(), (unsigned long long)o.hash, o.log.c_str(), o.detail.c_str()); }
        if (o.status == kInternal) { internal = fmt("run %u: %s", i, o.detail.c_str()); break; }
        if (R->nontrivial) { nontriv++; ntHashes.insert(o.hash); }
        evals += R->evaluations; st += R->steps; simns += R->simtime_ns;
        for (uint32_t k = 0; k < R->nfaults; k++) { auto &f = faults[R->faults[k].name]; f.first += R->faults[k].injected; f.second += R->faults[k].fired; }
        for (uint32_t k = 0; k < R->nsigs; k++) if (sigs.size() < 2000000) sigs.insert(R->sigs[k]);
        if (R->nontrivial && samples.size() < 2 && o.status != kViolation) samples.push_back(fmt("run %u (seed %llu): ", i, (unsigned long long)seed) + o.log.substr(0, 1500));
        // determinism gate on a sample of runs: replaying the recorded choices gives the same event hash
        if (o.status != kViolation && (i / stride) % 61 == 0) {
            RunOut o2; runOnce(true, 0, &o.choices, &o2); gateChecks++;
            if (o2.hash != o.hash || o2.status != o.status) { gateBad++; gateDetail = fmt("run %u: %016llx vs %016llx", i, (unsigned long long)o.hash, (unsigned long long)o2.hash);
                if (dump) printf("GATE MISMATCH\n%s\n", o2.log.c_str()); }
        }
        if (o.status == kViolation) {
            bool ign = false; std::string all = o.cls + "\n" + o.detail;
            for (auto &g : ignore) if (matchesAll(all, g)) { ign = true; ignored[g]++; if (!ignoredSample.count(g)) ignoredSample[g] = o.cls; break; }
            if (ign) continue;
            unsigned tries = 0;
            RunOut a; runOnce(true, 0, &o.choices, &a);           // same choices again, same process
            bool gate = a.status == kViolation && a.cls == o.cls && a.hash == o.hash;
            RunOut m = a;
            if (gate) { m = minimise(a, minb, &tries); RunOut c; runOnce(true, 0, &m.choices, &c); gate = c.status == kViolation && c.cls == m.cls && c.hash == m.hash; m = c; }
            viol = fmt("{\"run\":%u,\"seed\":\"%llu\",\"gate\":%s,\"cls\":\"", i, (unsigned long long)seed, gate ? "true" : "false") + jsonEsc(m.cls) + "\",\"hash\":\"" +
                   fmt("%016llx", (unsigned long long)m.hash) + "\",\"orig_choices\":" + fmt("%zu", o.choices.size()) + fmt(",\"minimise_runs\":%u", tries) + ",\"detail\":\"" + jsonEsc(m.detail) +
                   "\",\"events\":\"" + jsonEsc(m.log) + "\",\"choices\":[";
            std::vector<uint32_t> c = m.choices; while (!c.empty() && c.back() == 0) c.pop_back();
            for (size_t k = 0; k < c.size(); k++) { if (k) viol += ","; viol += std::to_string(c[k]); }
            viol += "]}";
            break;
        }
    }
    std::string j = "{";
    j += fmt("\"runs\":%llu,\"nontrivial\":%llu,\"evaluations\":%llu,\"steps\":%llu,\"simtime_ns\":%llu,\"wall\":%.3f,\"capped\":%s,\"gate_checks\":%llu,\"gate_bad\":%llu",
             (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)evals, (unsigned long long)st, (unsigned long long)simns, elapsed(), capped ? "true" : "false",
             (unsigned long long)gateChecks, (unsigned long long)gateBad);
    j += ",\"gate_detail\":\"" + jsonEsc(gateDetail) + "\"";
    j += ",\"internal\":\"" + jsonEsc(internal) + "\"";
    j += ",\"what\":\"" + jsonEsc(g_scn->what) + "\",\"real\":\"" + jsonEsc(g_scn->real) + "\",\"stub\":\"" + jsonEsc(g_scn->stub) + "\"";
    j += ",\"faults\":{"; bool first = true;
    for (auto &f : faults) { if (!first) j += ","; first = false; j += "\"" + jsonEsc(f.first) + fmt("\":[%llu,%llu]", (unsigned long long)f.second.first, (unsigned long long)f.second.second); }
    j += "},\"ignored\":{"; first = true;
    for (auto &f : ignored) { if (!first) j += ","; first = false; j += "\"" + jsonEsc(f.first) + fmt("\":%llu", (unsigned long long)f.second); }
    j += "},\"samples\":["; first = true;
    for (auto &s : samples) { if (!first) j += ","; first = false; j += "\"" + jsonEsc(s) + "\""; }
    j += "],\"nt_hashes\":["; first = true;
    for (auto h : ntHashes) { if (!first) j += ","; first = false; j += fmt("%llu", (unsigned long long)(h >> 12)); }
    j += "],\"sigs\":["; first = true;
    for (auto h : sigs) { if (!first) j += ","; first = false; j += fmt("%llu", (unsigned long long)(h >> 12)); }
    j += "],\"violation\":" + (viol.empty() ? std::string("null") : viol) + "}\n";
    if (out.empty()) fputs(j.c_str(), stdout);
    else { FILE *f = fopen(out.c_str(), "wb"); if (!f) { perror("out"); return 2; } fwrite(j.data(), 1, j.size(), f); fclose(f); }
    return 0;
}

} // namespace sim
