// C11: the outcome of a build and of every validation does not depend on the process environment.
// One case is executed in several child processes, each taking it through a sequence of environments; all outcomes must
// equal those of a process that only ever saw the plain environment.  Locale, time zone, environment variables and clock
// are replaced by the functions below while the library runs; the heap is the one of heap_env.cpp.
#include "case.hpp"
#include "heap_env.hpp"
#include <cerrno>
#include <cfenv>
#include <clocale>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <locale>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
extern char **environ;

namespace {
bool simClock = false; int64_t clockNow = 0, clockStep = 0; unsigned clockReads = 0;
int envAnswer = 0; unsigned envReads = 0;
void changed(const char *what) { if (sim::heap::inLibrary()) { sim::heap::Harness h; sim::violation(std::string("setting-changed:") + what, std::string("the library called ") + what); } }
template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
int64_t tick() { clockReads++; clockNow += clockStep; return clockNow; }
const char *fakeEnv(const char *n, bool &use) {
    use = false; if (!sim::heap::inLibrary() || !envAnswer) return nullptr;
    envReads++; use = true; bool loc = !strncmp(n, "LC_", 3) || !strncmp(n, "LANG", 4);
    switch (envAnswer) { case 1: return nullptr; case 2: return loc ? "C" : "1"; case 3: return ""; case 4: return loc ? "tr_TR.UTF-8" : "0"; default: return loc ? "de_DE.UTF-8" : "/nonexistent/x"; }
}
}
extern "C" {
char *setlocale(int c, const char *l) noexcept { if (l) changed("setlocale"); static auto r = real<char *(*)(int, const char *)>("setlocale"); return r(c, l); }
locale_t uselocale(locale_t l) noexcept { if (l) changed("uselocale"); static auto r = real<locale_t (*)(locale_t)>("uselocale"); return r(l); }
int setenv(const char *a, const char *b, int o) noexcept { changed("setenv"); static auto r = real<int (*)(const char *, const char *, int)>("setenv"); return r(a, b, o); }
int putenv(char *a) noexcept { changed("putenv"); static auto r = real<int (*)(char *)>("putenv"); return r(a); }
int unsetenv(const char *a) noexcept { changed("unsetenv"); static auto r = real<int (*)(const char *)>("unsetenv"); return r(a); }
int clearenv() noexcept { changed("clearenv"); static auto r = real<int (*)()>("clearenv"); return r(); }
char *getenv(const char *n) noexcept { bool u; const char *v = fakeEnv(n, u); if (u) return const_cast<char *>(v); for (char **e = environ; e && *e; e++) { size_t k = strlen(n); if (!strncmp(*e, n, k) && (*e)[k] == '=') return *e + k + 1; } return nullptr; }
char *secure_getenv(const char *n) noexcept { return getenv(n); }
time_t time(time_t *t) noexcept { time_t v; if (simClock) v = (time_t)(tick() / 1000000000); else { timespec s; clock_gettime(CLOCK_REALTIME, &s); v = s.tv_sec; } if (t) *t = v; return v; }
int gettimeofday(struct timeval *tv, void *) noexcept { timespec s; if (simClock) { int64_t n = tick(); tv->tv_sec = n / 1000000000; tv->tv_usec = n % 1000000000 / 1000; return 0; } clock_gettime(CLOCK_REALTIME, &s); tv->tv_sec = s.tv_sec; tv->tv_usec = s.tv_nsec / 1000; return 0; }
int clock_gettime(clockid_t c, struct timespec *s) noexcept { if (simClock) { int64_t n = tick(); s->tv_sec = n / 1000000000; s->tv_nsec = n % 1000000000; return 0; } static auto r = real<int (*)(clockid_t, struct timespec *)>("clock_gettime"); return r(c, s); }
}

namespace sim {
namespace {
// ---------------------------------------------------------------- environments
struct Punct : std::numpunct<char> {
    char dp, ts; std::string g; Punct(char d, char t, const char *gr) : dp(d), ts(t), g(gr) {}
    char do_decimal_point() const override { return dp; }
    char do_thousands_sep() const override { return ts; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
// commas separate fields: the usual trick to read tables with >>
struct CsvCtype : std::ctype<char> {
    static const mask *tab() { static mask t[table_size]; memcpy(t, classic_table(), sizeof t); t[(unsigned char)','] |= space; t[(unsigned char)'-'] = (mask)((t[(unsigned char)'-'] & ~print) | space); t[(unsigned char)' '] = (mask)(t[(unsigned char)' '] & ~space); return t; }
    CsvCtype() : std::ctype<char>(tab()) {}
};
const char *kLocales[] = {"de_DE.UTF-8", "fr_FR.UTF-8", "en_US.UTF-8", "hi_IN.UTF-8", "tr_TR.UTF-8", "de_CH.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "cs_CZ.ISO-8859-2", "fa_IR.UTF-8", "C.UTF-8", "et_EE.UTF-8"};
constexpr uint32_t kNamed = sizeof kLocales / sizeof *kLocales, kCxx = 1 + kNamed + 6;
const char *kZones[] = {nullptr, "UTC0", "EST5EDT,M3.2.0,M11.1.0", "XYZ-14", "ABC+12", "<+0545>-5:45", "CET-1CEST,M3.5.0/2,M10.5.0/3", ":no/such/zone", "",
    "<-03>3<-02>,M10.3.0/0,M2.3.0/0", "CST5CDT,M3.2.0/0,M10.5.0/1", "<-04>4<-03>,M9.1.0/0,M4.1.0/0", "<+10>-10<+11>,M10.1.0/2,M4.1.0/3", "EET-2EEST,M3.5.0/0,M10.5.0/0",
    "AAA12BBB-12,M3.2.0/0,M11.1.0/0", "AAA11BBB-13,M10.3.0/0,M2.3.0/0", "Pacific/Apia", "Pacific/Kwajalein", "Pacific/Kiritimati", "America/Sao_Paulo", "right/UTC"};
constexpr uint32_t kZoneCount = sizeof kZones / sizeof *kZones;
const char *kErr[] = {"0", "ERANGE", "EINVAL", "ENOMEM"}; const int kErrno[] = {0, ERANGE, EINVAL, ENOMEM};

struct Env {
    uint32_t cxx = 0, c = 0, ccat = 0, thr = 0, zone = 0, err = 0; int getenvStyle = 0; bool vars = false; int64_t clock = 0, step = 0; int stack = 0;
    heap::Layout lay;
    std::string text() const {
        return fmt("{c++ %u%s c %s%s thread %s zone %s vars %d/%d clock %lld+%lld errno %s stack %02x heap %d%d%d pad %u fill %d}", cxx, cxx && cxx <= kNamed ? (std::string("=") + kLocales[cxx - 1]).c_str() : "", c ? kLocales[c - 1] : "C", ccat ? ".part" : "",
            thr ? kLocales[thr - 1] : "-", kZones[zone] ? kZones[zone] : "-", vars, getenvStyle, (long long)clock, (long long)step, kErr[err], (unsigned)stack & 255, lay.arena, lay.down, lay.reuse, lay.pad, lay.fill);
    }
};
Env pickEnv() {
    Env e;
    if (choose(3)) e.cxx = choose(kCxx);
    if (choose(2)) { e.c = choose(kNamed + 1); e.ccat = choose(4); }
    if (choose(4) == 3) e.thr = choose(kNamed + 1);
    if (choose(2)) e.zone = choose(kZoneCount);
    if (choose(2)) { e.vars = choose(2); e.getenvStyle = (int)choose(6); }
    if (choose(2)) { static const int64_t k[] = {1700000000, 0, -1, 951782400, 1456704000, 4102444800LL, 2147483647LL, 253402300799LL, -62135596800LL, 1483228799}; e.clock = k[choose(10)] + (int64_t)choose(86400); static const int64_t st[] = {0, 1, 1000000, 1000000000, 86400000000000LL, -3600000000000LL}; e.step = st[choose(6)]; }
    if (choose(2)) e.err = choose(4);
    if (choose(2)) e.stack = (int)choose(256);
    if (choose(3)) { e.lay.arena = true; e.lay.down = choose(2); e.lay.reuse = choose(2); e.lay.pad = choose(2) ? 1 + choose(40) : 0; e.lay.fill = choose(3) ? (int)std::vector<int>{0, 0xff, 0x01, 0x20, 0x80, 0x41}[choose(6)] : -1; e.lay.seed = 1 + choose(1u << 30); }
    return e;
}
void countFaults(const Env &e, bool fired) {
    auto f = [&](bool on, const char *k) { if (on) { if (fired) faultFired(k); else faultPlanned(k); } };
    f(e.cxx, "c++-locale"); f(e.c, "c-locale"); f(e.thr, "thread-locale"); f(e.zone, "time-zone"); f(e.vars || e.getenvStyle, "environment-variables"); f(e.clock || e.step, "clock-moved"); f(e.err, "stale-errno"); f(e.stack, "stack-content"); f(e.lay.arena, "heap-layout");
}
std::locale cxxLocale(uint32_t k) {
    if (k == 0) return std::locale::classic();
    if (k <= kNamed) { try { return std::locale(kLocales[k - 1]); } catch (const std::exception &) { return std::locale(std::locale::classic(), new Punct(',', '.', "\3")); } }
    const std::locale &c = std::locale::classic();
    switch (k - kNamed - 1) {
    case 0: return std::locale(c, new Punct(',', '.', "\3")); case 1: return std::locale(c, new Punct('.', ',', "\3\2")); case 2: return std::locale(c, new Punct('.', '\'', "\3"));
    case 3: return std::locale(c, new Punct(',', ' ', "\3")); case 4: return std::locale(c, new CsvCtype); default: return std::locale(std::locale(c, new CsvCtype), new Punct(',', '.', "\1"));
    }
}
__attribute__((noinline)) void scribbleStack(int v) { volatile char b[48 << 10]; for (size_t i = 0; i < sizeof b; i++) b[i] = (char)v; }
locale_t threadLocales[kNamed];
void settings(const Env &e) {      // everything that may change in the middle of a call
    heap::Harness h;
    std::locale::global(cxxLocale(e.cxx));             // also sets the C locale
    ::setlocale(LC_ALL, "C");
    if (e.c) { static const int cat[] = {LC_ALL, LC_NUMERIC, LC_CTYPE, LC_COLLATE}; ::setlocale(cat[e.ccat], kLocales[e.c - 1]); }
    ::uselocale(LC_GLOBAL_LOCALE);
    if (e.thr) { locale_t &t = threadLocales[e.thr - 1]; if (!t) t = newlocale(LC_ALL_MASK, kLocales[e.thr - 1], nullptr); if (t) ::uselocale(t); }
    if (kZones[e.zone]) ::setenv("TZ", kZones[e.zone], 1); else ::unsetenv("TZ");
    tzset();
    const char *v[] = {"LC_ALL", "LANG", "LANGUAGE", "LC_NUMERIC", "POSIXLY_CORRECT", "HTTP_PROXY", "HOME"};
    for (auto n : v) { if (e.vars) ::setenv(n, n[0] == 'L' ? "de_DE.UTF-8" : "/x", 1); else ::unsetenv(n); }
    envAnswer = e.getenvStyle; clockNow = e.clock * 1000000000; clockStep = e.step; errno = kErrno[e.err];
}
void plainSettings() { settings(Env()); }

// ---------------------------------------------------------------- what is compared
struct Shared { uint32_t n; char text[1 << 18]; };
Shared *sh;
struct Plan { std::vector<Env> envs; bool moving = false; std::vector<Env> during; };
const Plan *curPlan; unsigned moves; const Env *curEnv;
void move() { if (!curPlan || !curPlan->moving) return; heap::Harness h; const Env &e = curPlan->during[moves++ % curPlan->during.size()]; settings(e); faultFired("change-in-callback"); curEnv = &e; }
void moveMake() { move(); }
void moveVal(const valijson::adapters::Adapter &) { move(); }
void moveRx(const std::string &) { move(); }

std::string snapshot() {
    heap::Harness h; std::string s = ::setlocale(LC_ALL, nullptr); s += "/" + std::locale().name() + fmt("/%p", (void *)::uselocale((locale_t)0)); const char *tz = nullptr;
    for (char **e = environ; e && *e; e++) { s += *e; s += '\n'; if (!strncmp(*e, "TZ=", 3)) tz = *e; } (void)tz;
    const auto &np = std::use_facet<std::numpunct<char>>(std::locale()); s += np.decimal_point(); s += np.thousands_sep(); s += np.grouping(); s += fmt("/%d/%s/%ld", fegetround(), tzname[0], timezone); return s;
}
template <class F> Outcome inEnv(const char *what, F f) {
    unsigned before = moves; std::string a = snapshot();
    scribbleStack(curEnv->stack); errno = kErrno[curEnv->err];
    Outcome o = f();
    heap::Harness h; bool moved = moves != before;
    if (!moved) { std::string b = snapshot(); if (a != b) violation("setting-changed", std::string("process-wide settings differ after ") + what + ":\n" + a + "\n---\n" + b); }
    return o;
}
// one process: takes the case through the environments of the plan; writes one text per environment
void process(Case &c, const Plan &p) {
    curPlan = &p; sh->n = 0; size_t off = 0; moves = 0;
    simClock = true;
    { const char *lp = ::getenv("LOCPATH"); std::string keep = lp ? lp : ""; ::clearenv(); if (!keep.empty()) ::setenv("LOCPATH", keep.c_str(), 1); }
    customMakeHook = moveMake; customValidateHook = moveVal; regexCtorHook = moveRx; regexSearchHook = moveRx;
    Lib::Fetch inner = c.srv.f; c.srv.f = [&](const std::string &u) { heap::Harness h; move(); const Env *e = curEnv; plainSettings(); const void *d = inner(u); settings(*e); return d; };
    for (const Env &e : p.envs) {
        plainSettings(); heap::setLayout(e.lay); if (e.lay.fill >= 0) mallopt(M_PERTURB, e.lay.fill | 1);
        if (c.src) c.lib->destroy(c.src);
        c.src = c.lib->make(c.root);
        for (size_t i = 0; i < c.nat.size(); i++) { c.lib->destroy(c.nat[i]); c.nat[i] = c.lib->make(c.docs[i]); }
        c.srv.fetched.clear();
        curEnv = &e; settings(e); countFaults(e, true);
        std::string out;
        {
            auto ps = c.parser(); valijson::Schema s; where("building in %s", e.text().c_str());
            Outcome b = inEnv("building", [&] { return c.build(*ps, s); });
            out += b.threw() ? "build failed\n" : "built\n";
            for (auto &f : c.srv.fetched) out += "fetched " + f + "\n";
            if (!b.threw()) for (size_t i = 0; i < c.nat.size(); i++) {
                settings(e); curEnv = &e; where("validating document %zu in %s", i, e.text().c_str());
                valijson::ValidationResults r; std::unique_ptr<AnyValidator> v; { heap::LibCall lc; v.reset(new AnyValidator(c.opt)); }
                Outcome o = inEnv("validating", [&] { return doValidate(*v, c.lib, s, c.nat[i], c.opt.collect ? &r : nullptr); });
                out += o.threw() ? "exception\n" : o.text() + "\n"; evaluated();
            }
            plainSettings();
        }
        steps(1 + c.nat.size());
        if (clockReads) faultFired("clock-read", clockReads); if (envReads) faultFired("variable-read", envReads); clockReads = envReads = 0;
        if (off + out.size() + 1 >= sizeof sh->text) internalError("too much output");
        memcpy(sh->text + off, out.c_str(), out.size() + 1); off += out.size() + 1; sh->n++;
    }
    _exit(0);
}
std::vector<std::string> child(Case &c, const Plan &p) {
    pid_t pid = fork();
    if (pid < 0) internalError("fork");
    if (pid == 0) process(c, p);
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    if (R->status != kUnfinished) _exit(0);
    if (WIFSIGNALED(st)) violation(fmt("crash:signal%d", WTERMSIG(st)), std::string("the process ended while ") + R->where);
    std::vector<std::string> v; size_t off = 0; for (uint32_t i = 0; i < sh->n; i++) { v.push_back(sh->text + off); off += v.back().size() + 1; }
    if (v.size() != p.envs.size()) internalError("child ended early");
    return v;
}
void run() {
    where("setup"); sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    const Lib *lib = pickLib(); Case::Want w; w.docs = 3 + choose(3); w.simRegex = true; w.envTexts = choose(5) != 4; w.allFormats = choose(2); Case c(lib, w);
    if (choose(4)) c.opt.collect = true;
    if (w.envTexts && choose(2)) c.opt.strong = false;
    Plan base; base.envs.emplace_back();
    std::vector<std::string> want = child(c, base);
    unsigned groups = 1 + choose(2); uint64_t path = 0; unsigned hostile = 0;
    for (unsigned g = 0; g < groups; g++) {
        Plan p; unsigned n = 1 + choose(3); for (unsigned i = 0; i < n; i++) p.envs.push_back(pickEnv());
        if (choose(3) == 2) { p.moving = true; for (unsigned i = 0, m = 1 + choose(3); i < m; i++) p.during.push_back(pickEnv()); faultPlanned("change-in-callback"); }
        for (auto &e : p.envs) { countFaults(e, false); if (e.cxx || e.c || e.lay.arena || e.zone) hostile++; path = mix(path, e.cxx * 64 + e.c); path = mix(path, e.zone * 8 + e.lay.arena * 4 + e.lay.down * 2 + p.moving); }
        std::vector<std::string> got = child(c, p);
        for (size_t i = 0; i < got.size(); i++) {
            ev("process %u environment %zu %s: %016llx", g, i, p.envs[i].text().c_str(), (unsigned long long)hashStr(got[i]));
            if (p.moving) for (auto &d : p.during) ev("  changing to %s", d.text().c_str());
            evaluated();
            if (got[i] != want[0]) {
                const char *k = "errors"; auto strip = [](const std::string &s) { std::string o; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); std::string l = s.substr(a, b - a); size_t q = l.find(" errors="); if (l.compare(0, 8, "returned") == 0 || l.compare(0, 4, "buil") == 0 || l == "exception") o += l.substr(0, q) + "\n"; a = b + 1; } return o; };
                if (got[i].substr(0, 6) != want[0].substr(0, 6)) k = "build"; else if (strip(got[i]) != strip(want[0])) k = "verdict";
                violation(fmt("environment-changes-%s:%s", k, lib->name()), fmt("environment %s\ngives\n%s\nexpected (plain environment)\n%s", p.envs[i].text().c_str(), got[i].c_str(), want[0].c_str()));
            }
        }
    }
    if (hostile) { nontrivial(); sig(path); }
}
Registrar r11({"C11", run, "one case built and validated in two or three processes that go through one to three environments each, with changes at callback points",
    "valijson, libstdc++ and libc locale machinery, all JSON libraries", "clock, environment variables and heap placement (simulated); settings chosen by the simulator"});
}
}
