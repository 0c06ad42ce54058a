// C10: loading documents from a simulated disk.
// Every system call on paths below /simdisk/ goes through the functions defined here (they replace the ones of libc
// for the executable and all shared libraries); the file content lives in memory, the fault plan decides what each call does.
#include "core.hpp"
#include "gen.hpp"
#include "io.hpp"
#include <cerrno>
#include <climits>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <memory>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace {
struct Disk {
    bool exists = true, dir = false; std::string content;
    int openErr = 0;                       // errno of the next open, 0 = none
    int openEintr = 0;                     // that many opens end with EINTR first
    unsigned readNo = 0, seekNo = 0, statNo = 0;
    long eioPos = -1, pos = 0;             // no byte from this position on can be read
    long eioRead = -1; int readErr = EIO; bool eioSticky = false;
    long eioSeek = -1, eioStat = -1; bool closeErr = false;
    unsigned shortPm = 0, eintrPm = 0;     // per read, in 1/1000
    unsigned shortMax = 64;
    long truncAt = -1; size_t truncTo = 0; // the file shrinks before the k-th read
    bool hard = false, eintr = false, truncated = false; unsigned shorts = 0;   // what really happened
    unsigned opens = 0;
};
Disk *disk = nullptr;
struct Handle { FILE *f = nullptr; bool used = false; };
Handle handles[1024];
int openHandles = 0;
template <class F> F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto r = real<decltype(&::name)>(#name)
bool ours(const char *p) { return disk && p && !strncmp(p, "/simdisk/", 9); }
bool ours(int fd) { return disk && fd >= 0 && fd < 1024 && handles[fd].used; }
int doOpen() {
    disk->opens++;
    if (disk->openEintr > 0) { disk->openEintr--; disk->hard = true; sim::faultFired("open-eintr"); errno = EINTR; return -1; }
    if (disk->openErr) { disk->hard = true; sim::faultFired("open-error"); errno = disk->openErr; return -1; }
    if (!disk->exists) { errno = ENOENT; return -1; }
    int fd = memfd_create("simdisk", MFD_CLOEXEC);
    if (fd < 0 || fd >= 1024) sim::internalError("memfd");
    auto w = real<decltype(&::write)>("write"); size_t n = 0;
    while (n < disk->content.size()) { ssize_t k = w(fd, disk->content.data() + n, disk->content.size() - n); if (k <= 0) sim::internalError("memfd write"); n += (size_t)k; }
    real<decltype(&::lseek64)>("lseek64")(fd, 0, SEEK_SET);
    handles[fd].used = true; handles[fd].f = nullptr; openHandles++;
    return fd;
}
ssize_t doRead(int fd, void *b, size_t n) {
    unsigned k = disk->readNo++;
    sim::steps(1);
    if (disk->dir) { disk->hard = true; errno = EISDIR; return -1; }
    if (disk->truncAt >= 0 && k >= (unsigned)disk->truncAt && !disk->truncated) { disk->truncated = true; sim::faultFired("truncated-while-reading"); if (ftruncate(fd, (off_t)disk->truncTo)) {} }
    if (disk->eioRead >= 0 && (disk->eioSticky ? k >= (unsigned)disk->eioRead : k == (unsigned)disk->eioRead)) { disk->hard = true; sim::faultFired("read-error"); errno = disk->readErr; return -1; }
    if (disk->eintrPm && sim::choose(1000) < disk->eintrPm) { disk->eintr = true; sim::faultFired("read-eintr"); errno = EINTR; return -1; }
    if (disk->eioPos >= 0) {
        disk->pos = (long)real<decltype(&::lseek64)>("lseek64")(fd, 0, SEEK_CUR);
        if (disk->pos >= disk->eioPos) { disk->hard = true; sim::faultFired("bad-sector"); errno = disk->readErr; return -1; }
        n = std::min(n, (size_t)(disk->eioPos - disk->pos)); }
    if (n > 1 && disk->shortPm && sim::choose(1000) < disk->shortPm) { size_t m = 1 + sim::choose((uint32_t)std::min<size_t>(n - 1, disk->shortMax)); if (m < n) { n = m; disk->shorts++; sim::faultFired("short-read"); } }
    return real<decltype(&::read)>("read")(fd, b, n);
}
off64_t doSeek(int fd, off64_t o, int w) {
    unsigned k = disk->seekNo++;
    if (disk->eioSeek >= 0 && k == (unsigned)disk->eioSeek) { disk->hard = true; sim::faultFired("seek-error"); errno = EIO; return -1; }
    if (disk->dir && w == SEEK_END) return LLONG_MAX;
    return real<decltype(&::lseek64)>("lseek64")(fd, o, w);
}
int doClose(int fd) {
    handles[fd].used = false; openHandles--;
    int rc = real<decltype(&::close)>("close")(fd);
    if (disk->closeErr) { sim::faultFired("close-error"); errno = EIO; return -1; }
    return rc;
}
template <class S> int fixStat(S *s, int rc) { if (rc == 0 && disk->dir) s->st_mode = (s->st_mode & ~(unsigned)S_IFMT) | S_IFDIR; return rc; }
bool statFails() { unsigned k = disk->statNo++; if (disk->eioStat >= 0 && k == (unsigned)disk->eioStat) { disk->hard = true; sim::faultFired("stat-error"); errno = EIO; return true; } return false; }
template <class S> int pathStat(S *s) {
    if (statFails()) return -1;
    if (!disk->exists) { errno = ENOENT; return -1; }
    memset(s, 0, sizeof *s); s->st_mode = (disk->dir ? S_IFDIR : S_IFREG) | 0644; s->st_size = (off_t)disk->content.size(); s->st_nlink = 1; s->st_blksize = 4096; return 0;
}
ssize_t cookieRead(void *c, char *b, size_t n) { return doRead((int)(long)c, b, n); }
int cookieSeek(void *c, off64_t *o, int w) { off64_t r = doSeek((int)(long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
int cookieClose(void *c) { return doClose((int)(long)c); }
FILE *doFopen(const char *mode) {
    int fd = doOpen(); if (fd < 0) return nullptr;
    cookie_io_functions_t io = {cookieRead, nullptr, cookieSeek, cookieClose};
    (void)mode; FILE *f = fopencookie((void *)(long)fd, "r", io); if (!f) sim::internalError("fopencookie");
    handles[fd].f = f; return f;
}
}
extern "C" {
FILE *fopen(const char *p, const char *m) { if (ours(p)) return doFopen(m); REAL(fopen); return r(p, m); }
FILE *fopen64(const char *p, const char *m) { if (ours(p)) return doFopen(m); REAL(fopen64); return r(p, m); }
int fileno(FILE *f) noexcept { if (disk) for (int i = 0; i < 1024; i++) if (handles[i].used && handles[i].f == f) return i; REAL(fileno); return r(f); }
int open(const char *p, int fl, ...) { if (ours(p)) return doOpen(); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); REAL(open); return r(p, fl, m); }
int open64(const char *p, int fl, ...) { if (ours(p)) return doOpen(); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); REAL(open64); return r(p, fl, m); }
int openat(int d, const char *p, int fl, ...) { if (ours(p)) return doOpen(); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); REAL(openat); return r(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { if (ours(p)) return doOpen(); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); REAL(openat64); return r(d, p, fl, m); }
ssize_t read(int fd, void *b, size_t n) { if (ours(fd)) return doRead(fd, b, n); REAL(read); return r(fd, b, n); }
ssize_t readv(int fd, const struct iovec *v, int c) { if (ours(fd)) return c > 0 ? doRead(fd, v[0].iov_base, v[0].iov_len) : 0; REAL(readv); return r(fd, v, c); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (ours(fd)) { if (real<decltype(&::lseek64)>("lseek64")(fd, o, SEEK_SET) < 0) return -1; return doRead(fd, b, n); } REAL(pread); return r(fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) noexcept { if (ours(fd)) return doSeek(fd, o, w); REAL(lseek); return r(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (ours(fd)) return doSeek(fd, o, w); REAL(lseek64); return r(fd, o, w); }
int close(int fd) { if (ours(fd)) return doClose(fd); REAL(close); return r(fd); }
int fstat(int fd, struct stat *s) noexcept { if (ours(fd) && statFails()) return -1; REAL(fstat); int rc = r(fd, s); return ours(fd) ? fixStat(s, rc) : rc; }
int fstat64(int fd, struct stat64 *s) noexcept { if (ours(fd) && statFails()) return -1; REAL(fstat64); int rc = r(fd, s); return ours(fd) ? fixStat(s, rc) : rc; }
int stat(const char *p, struct stat *s) noexcept { if (ours(p)) return pathStat(s); REAL(stat); return r(p, s); }
int stat64(const char *p, struct stat64 *s) noexcept { if (ours(p)) return pathStat(s); REAL(stat64); return r(p, s); }
int lstat(const char *p, struct stat *s) noexcept { if (ours(p)) return pathStat(s); REAL(lstat); return r(p, s); }
int lstat64(const char *p, struct stat64 *s) noexcept { if (ours(p)) return pathStat(s); REAL(lstat64); return r(p, s); }
int access(const char *p, int m) noexcept { if (ours(p)) { if (disk->exists) return 0; errno = ENOENT; return -1; } REAL(access); return r(p, m); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *s) noexcept {
    bool o = ours(p) || (ours(d) && (!p || !*p));
    if (o && statFails()) return -1;
    REAL(statx);
    if (ours(p)) { if (!disk->exists) { errno = ENOENT; return -1; } memset(s, 0, sizeof *s); s->stx_mask = STATX_BASIC_STATS; s->stx_mode = (uint16_t)((disk->dir ? S_IFDIR : S_IFREG) | 0644); s->stx_size = disk->content.size(); return 0; }
    int rc = r(d, p, fl, mask, s);
    if (o && rc == 0 && disk->dir) s->stx_mode = (uint16_t)((s->stx_mode & ~S_IFMT) | S_IFDIR);
    return rc;
}
}

namespace sim {
namespace {
// strict JSON reader, independent of the libraries under test
struct Strict {
    const std::string &s; size_t p = 0; bool ok = true, dup = false; int depth = 0, maxDepth = 0; bool lenient;
    explicit Strict(const std::string &t, bool l = false) : s(t), lenient(l) {}
    void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) p++; }
    bool lit(const char *l) { size_t n = strlen(l); if (s.compare(p, n, l)) return ok = false; p += n; return true; }
    J fail() { ok = false; return J(); }
    static void utf8(uint32_t c, std::string &o) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xc0 | c >> 6); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xe0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
    std::string str() {
        std::string o; p++;
        for (;;) {
            if (p >= s.size() || (!lenient && (unsigned char)s[p] < 32)) { ok = false; return o; }
            char c = s[p++];
            if (c == '"') return o;
            if (c != '\\') { o += c; continue; }
            if (p >= s.size()) { ok = false; return o; }
            c = s[p++];
            switch (c) { case '"': case '\\': case '/': o += c; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
            case 'u': { uint32_t v = 0; for (int i = 0; i < 4; i++) { if (p >= s.size() || !isxdigit((unsigned char)s[p])) { ok = false; return o; } char h = s[p++]; v = v * 16 + (uint32_t)(h <= '9' ? h - '0' : (h | 32) - 'a' + 10); } utf8(v, o); break; }
            default: if (!lenient) { ok = false; return o; } o += c; }
        }
    }
    J val() {
        ws(); if (p >= s.size()) return fail();
        char c = s[p];
        if (c == '{' || c == '[') {
            if (++depth > maxDepth) maxDepth = depth;
            J r = c == '{' ? J::obj() : J::arr(); char end = c == '{' ? '}' : ']'; p++; ws();
            if (p < s.size() && s[p] == end) { p++; depth--; return r; }
            for (;;) {
                std::string k;
                if (c == '{') { ws(); if (p >= s.size() || s[p] != '"') return fail(); k = str(); if (!ok) return r; ws(); if (p >= s.size() || s[p] != ':') return fail(); p++; }
                J v = val(); if (!ok) return r;
                if (c == '{') { if (r.get(k)) dup = true; r.o.emplace_back(k, std::move(v)); } else r.a.push_back(std::move(v));
                ws(); if (p >= s.size()) return fail();
                if (s[p] == ',') { p++; continue; }
                if (s[p] == end) { p++; depth--; return r; }
                return fail();
            }
        }
        if (c == '"') return J::str(str());
        if (c == 't') { lit("true"); return J::boolean(true); }
        if (c == 'f') { lit("false"); return J::boolean(false); }
        if (c == 'n') { lit("null"); return J(); }
        size_t b = p; if (s[p] == '-') p++;
        if (p >= s.size() || !isdigit((unsigned char)s[p])) return fail();
        if (s[p] == '0' && !lenient) p++; else while (p < s.size() && isdigit((unsigned char)s[p])) p++;
        bool d = false;
        if (p < s.size() && s[p] == '.') { d = true; p++; if (p >= s.size() || !isdigit((unsigned char)s[p])) return fail(); while (p < s.size() && isdigit((unsigned char)s[p])) p++; }
        if (p - b > 9) dup = dup || !d;   // large integers are represented differently by the libraries
        if (!d) return J::integer(atoll(s.substr(b, p - b).c_str()));
        double v = atof(s.substr(b, p - b).c_str()); return v == (double)(int64_t)v ? J::integer((int64_t)v) : J::dbl(v);
    }
    J all() { J j = val(); if (ok) { ws(); if (p != s.size()) ok = false; } if (ok && j.t != J::Obj && j.t != J::Arr) ok = false; return j; }
};
J text(const J &j) {   // all scalars as strings, no empty containers
    if (j.t == J::Arr) { J r = J::arr(); for (auto &v : j.a) r.push(text(v)); if (r.a.empty()) r.push(J::str("e")); return r; }
    if (j.t == J::Obj) { J r = J::obj(); for (auto &p : j.o) if (!p.first.empty()) r.set(p.first, text(p.second)); if (r.o.empty()) return J::arr({J::str("e")}); return r; }
    return j.t == J::Str ? (j.s.empty() ? J::arr({J::str("e")}) : j) : J::str("v" + std::to_string(j.i));
}
J value(int d) {
    switch (choose(d > 0 ? 9 : 6)) {
    case 0: return J::integer((int)choose(1000) - 500); case 1: return J::boolean(choose(2)); case 2: return J();
    case 3: return J::dbl((double)((int)choose(4096) - 2048) / 1024 + 0.0009765625); case 4: { std::string s; for (uint32_t n = choose(8); n--;) s += "ab\"\\/\n\x7f"[choose(6)]; return J::str(s); }
    case 5: { std::string s(chooseLog(9000), 'x'); if (!s.empty()) s[choose((uint32_t)s.size())] = (char)('a' + choose(26)); return J::str(s); }
    case 6: case 7: { J o = J::obj(); for (uint32_t n = choose(5), i = 0; i < n; i++) o.set("k" + std::to_string(i), value(d - 1)); return o; }
    default: { J a = J::arr(); for (uint32_t n = choose(6); n--;) a.push(value(d - 1)); return a; }
    }
}
J root() { J r; if (choose(2)) { r = J::obj(); for (uint32_t n = 1 + choose(5), i = 0; i < n; i++) r.set("p" + std::to_string(i), value(3)); } else { r = J::arr(); for (uint32_t n = 1 + choose(6); n--;) r.push(value(3)); } return r; }
std::string pad() { switch (choose(6)) { case 0: return std::string(chooseLog(40000), ' '); case 1: return "\n"; default: return ""; } }
std::string brief(const std::string &s) { std::string o; size_t n = s.size(); for (size_t i = 0; i < n; i++) { if (n > 160 && i == 80) { o += fmt("...(%zu bytes)...", n); i = n - 60; } char c = s[i]; if (c == 0) o += "\\0"; else o += c; } return o; }

void run() {
    where("setup");
    std::cerr.setstate(std::ios::failbit); std::cout.setstate(std::ios::failbit);
    const Loader *L = loaders()[choose((uint32_t)loaders().size())];
    void *doc = L->make();
    uint32_t loads = 1 + choose(4);
    ev("library %s%s", L->name(), L->noexc() ? " (no exceptions)" : "");
    std::string prev = "[1]";
    for (uint32_t n = 0; n < loads; n++) {
        Disk dk; disk = &dk;
        where("load %u with %s", n, L->name());
        J j = root(); bool deep = false;
        if (L->weak()) j = text(j);
        std::string s = dump(j);
        if (chance(60) && !(L->noexc() && !strcmp(L->name(), "jsoncpp"))) {   // JsonCpp itself can only report deep nesting by an exception
            uint32_t d = 1 + chooseLog(3000); deep = true; s = std::string(d, '[') + s + std::string(d, ']'); ev("deep nesting"); }
        s = pad() + s + pad();
        const size_t whole = s.size(); const char *tear = "intact"; bool gapInText = false;
        switch (choose(12)) {
        case 1: case 2: tear = "cut"; s.resize(choose((uint32_t)s.size() + 1)); break;
        case 3: { tear = "zero-tail"; uint32_t c = choose((uint32_t)s.size() + 1); s = s.substr(0, c) + std::string(choose(3) ? s.size() - c : 1 + choose(5000), '\0'); break; }
        case 4: { tear = "zero-gap"; const std::string entire = s; size_t a = choose((uint32_t)s.size()), e = a + 1 + choose((uint32_t)std::min<size_t>(s.size() - a, 600)); for (size_t i = a; i < e && i < s.size(); i++) s[i] = '\0'; bool q = false, esc = false; for (size_t i = 0; i < a; i++) { if (esc) esc = false; else if (entire[i] == '\\') esc = q; else if (entire[i] == '"') q = !q; } gapInText = q; break; }
        case 5: tear = "new-over-longer-old"; if (prev.size() > s.size()) s += prev.substr(s.size()); else s += choose(2) ? "}" : "x\"]"; break;
        case 6: { tear = "old-over-longer-new"; size_t c = choose((uint32_t)std::min(s.size(), prev.size()) + 1); s = prev.substr(0, c) + s.substr(c); break; }
        case 7: tear = "doubled"; s += s; break;
        case 8: switch (choose(6)) { case 0: tear = "empty"; s.clear(); break; case 1: tear = "missing"; dk.exists = false; break; case 2: tear = "directory"; dk.dir = true; break; case 3: tear = "blank"; s = "  \n"; break; default: break; } break;
        default: break;
        }
        bool torn = strcmp(tear, "intact") != 0;
        if (torn) { faultPlanned(tear); faultFired(tear); nontrivial(); }
        dk.content = s;
        bool planned = false;
        auto plan = [&](const char *k) { faultPlanned(k); planned = true; };
        if (choose(3)) for (int f = 0; f < 3; f++) switch (choose(15)) {
        case 0: case 1: dk.shortPm = 100 + choose(900); dk.shortMax = 1 + chooseLog(9000); plan("short-read"); break;
        case 2: dk.eintrPm = 1 + choose(300); plan("read-eintr"); break;
        case 3: case 4: dk.eioRead = (long)choose(6); dk.readErr = std::vector<int>{EIO, EIO, EAGAIN, EBADF, EISDIR, ESTALE}[choose(6)]; dk.eioSticky = choose(3) == 0; plan("read-error"); break;
        case 5: dk.openErr = std::vector<int>{ENOENT, EACCES, EMFILE, ENFILE, EIO, ELOOP}[choose(6)]; plan("open-error"); break;
        case 6: if (choose(3) == 0) { dk.openEintr = 1 + (int)choose(2); plan("open-eintr"); } break;
        case 7: dk.eioSeek = (long)choose(4); plan("seek-error"); break;
        case 8: dk.eioStat = (long)choose(3); plan("stat-error"); break;
        case 9: dk.closeErr = true; plan("close-error"); break;
        case 10: dk.truncAt = (long)choose(4); dk.truncTo = choose((uint32_t)s.size() + 1); plan("truncated-while-reading"); break;
        case 11: { dk.eioPos = (long)(torn && choose(3) ? std::min(whole, s.size()) : choose((uint32_t)s.size() + 1)); dk.readErr = choose(3) ? EIO : ESTALE; plan("bad-sector"); break; }
        default: break;
        }
        std::string what, exc; bool got = false, threw = false;
        try { got = L->load(doc, "/simdisk/doc.json"); }
        catch (const std::exception &e) { threw = true; exc = e.what(); }
        catch (...) { threw = true; exc = "unknown exception"; }
        ev("load %u %s [%s] reads=%u shorts=%u eintr=%d error=%d truncated=%d -> %s", n, tear, brief(s).c_str(), dk.readNo, dk.shorts, dk.eintr, dk.hard, dk.truncated, threw ? "exception" : got ? "true" : "false");
        if (dk.hard || dk.eintr || dk.shorts || dk.truncated) nontrivial();
        sig(mix(mix(hashStr(std::string(L->name()) + tear), dk.hard * 8 + dk.eintr * 4 + (dk.shorts > 0) * 2 + dk.truncated), dk.readNo));
        std::string ctx = fmt("%s, %s file [%s], %u reads (%u short), interrupted %d, failing call %d, truncated %d", L->name(), tear, brief(s).c_str(), dk.readNo, dk.shorts, dk.eintr, dk.hard, dk.truncated);
        if (threw) violation(std::string("exception:") + L->name(), "loading ended with an exception: " + exc + "\n" + ctx);
        if (openHandles) violation("open-file-left", fmt("%d files are still open after loading\n", openHandles) + ctx);
        evaluated();
        bool absent = !dk.exists || dk.dir;
        if (L->raw()) {
            if (got) {
                if (absent) violation("success-without-file", ctx);
                std::string c = L->rawGet(doc);
                bool same = c == s || (dk.truncated && c == s.substr(0, dk.truncTo));
                if (!same && !(dk.truncated && c.size() <= s.size() && s.compare(0, c.size(), c) == 0)) violation("incomplete-content", fmt("success reported with %zu of %zu bytes\n", c.size(), s.size()) + ctx);
            } else if (!absent && !dk.hard && !dk.eintr && !dk.truncated && !planned) violation("intact-file-refused", ctx);
            else if (!absent && !dk.hard && !dk.eintr && !dk.truncated) violation("short-reads-refused", ctx);
        } else {
            Strict p(s); J want = p.all(); bool wf = p.ok && dk.exists && !dk.dir; bool shallow = p.maxDepth < 30;
            if (L->yaml() && !wf && dk.exists && !dk.dir && L->reference(s)) { disk = nullptr; prev = s; continue; }   // not JSON, but a complete YAML stream
            bool fuzzy = p.dup || gapInText || (dk.truncated && torn) || (!wf && !strcmp(tear, "old-over-longer-new"));
            if (fuzzy) { }   // which of two equal names wins is up to the library; mixtures may be anything; some parsers keep control characters in texts
            else if (got) {
                bool okc = false;
                J have; if (wf || dk.truncated) have = L->get(doc);
                J cmp = L->weak() ? text(want) : want; if (L->weak()) have = text(have);
                if (wf && jeq(have, cmp)) okc = true;
                if (!wf && !absent) { Strict q(s, true); J w2 = q.all(); if (q.ok && jeq(L->weak() ? text(L->get(doc)) : L->get(doc), L->weak() ? text(w2) : w2)) okc = true; }   // a parser may keep raw control characters in strings
                if (!okc && dk.truncated) { Strict q(s); J w2 = q.val(); if (q.ok && jeq(have, L->weak() ? text(w2) : w2)) okc = true; if (L->yaml() && !okc) okc = true; }
                if (!okc) violation(wf ? std::string("wrong-content:") + L->name() : std::string("damaged-file-accepted:") + L->name(), std::string("success reported; ") + (wf ? "document is " + brief(dump(have)) + "\n" : "") + ctx);
            } else if (wf && shallow && !deep && !dk.hard && !dk.eintr && !dk.truncated) violation(dk.shorts ? "short-reads-refused" : "intact-file-refused", ctx);
        }
        prev = s; disk = nullptr;
    }
    L->destroy(doc);
}
Registrar r10({"C10", run, "one to four loads into one document object from a simulated disk: intact, cut, zero-filled, overlaid, empty and missing files under short reads, interruptions, read, open, seek, stat and close errors and truncation while reading",
    "valijson load-from-file helpers, libstdc++ file streams, QFile, the JSON libraries' parsers", "open, read, seek, stat and close system calls (in-memory file with fault plan)"});
}
}
