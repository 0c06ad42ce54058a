// C14: the same operations in the build with and in the build without exceptions.
#include "big.hpp"
#include "graph.hpp"
#include "io.hpp"
#include "twin.hpp"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace sim {
namespace {
// replace the value of one keyword, or add one, so that the schema becomes malformed (or merely odd)
J oddValue() {
    switch (choose(14)) { case 0: return J::null(); case 1: return J::boolean(choose(2)); case 2: return J::integer(-1); case 3: return J::integer((int64_t)choose(5)); case 4: return J::dbl(-0.5); case 5: return J::str("x"); case 6: return J::str(""); case 7: return J::arr();
    case 8: return J::arr({J::integer(1)}); case 9: return J::obj(); case 10: { J o = J::obj(); o.set("a", J::integer(3)); return o; } case 11: return J::arr({J::str("a"), J::obj()}); case 12: { J o = J::obj(); o.set("$ref", J::str("#/definitions/none")); return o; } default: return J::str("any"); }
}
void spoil(J &s, int depth) {
    if (s.t != J::Obj) { if (s.t == J::Arr && !s.a.empty() && depth) spoil(s.a[choose((uint32_t)s.a.size())], depth - 1); return; }
    if (depth && !s.o.empty() && choose(2)) { spoil(s.o[choose((uint32_t)s.o.size())].second, depth - 1); return; }
    static const char *kw[] = {"allOf", "anyOf", "oneOf", "not", "contains", "dependencies", "format", "additionalItems", "items", "maximum", "minimum", "exclusiveMaximum", "exclusiveMinimum", "maxItems", "minItems", "maxLength", "minLength", "maxProperties", "minProperties",
        "multipleOf", "divisibleBy", "additionalProperties", "properties", "patternProperties", "propertyNames", "required", "type", "uniqueItems", "title", "description", "id", "$id", "$ref", "enum", "const", "if", "then", "else", "extends", "disallow", "x-custom", "definitions"};
    constexpr uint32_t n = sizeof kw / sizeof *kw; const char *k = kw[choose(n)];
    if (!strcmp(k, "$ref") && choose(4) == 3) { std::string l(100 + chooseLog(3000), 'x'); s.set("$ref", J::str(choose(2) ? "http://none.example/" + l + ".json" : "#/definitions/" + l)); return; }
    if (!strcmp(k, "$ref")) { static const char *r[] = {"#/definitions/none", "#/definitions/%zz", "#/definitions/%4", "http://none.example/x.json", "#/allOf/99", "#/allOf/99999999999999999999999", "#/allOf/-", "#/allOf/1x", "#/title/x", "#nothing", "", "#/definitions/a/0"}; s.set(k, J::str(r[choose(12)])); return; }
    s.set(k, oddValue());
}
std::string oddPointer() {
    std::string p; static const char *tok[] = {"a", "b", "0", "1", "2", "-", "99", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "1x", "%41", "%4", "%zz", "%", "~0", "~1", "a%20b", "", "01", "%00", "%2", "+1", "0x1"};
    for (unsigned n = 1 + choose(3); n--;) { if (choose(12) != 11) p += "/"; p += tok[choose(25)]; }
    return p;
}
J oddDoc(int d) {
    switch (choose(d ? 10 : 7)) { case 0: return J::null(); case 1: return J::boolean(choose(2)); case 2: return J::integer((int64_t)choose(100) - 3); case 3: return J::dbl((double)choose(9) / 4); case 4: return J::str(std::vector<const char *>{"", "a", "true", "12", "-3", "1.5", "null", "99999999999999999999", "x y"}[choose(9)]); case 5: return J::arr(); case 6: return J::obj();
    case 7: { J a = J::arr(); for (unsigned n = 1 + choose(3); n--;) a.push(oddDoc(d - 1)); return a; } default: { J o = J::obj(); static const char *k[] = {"a", "b", "0", "A", "~", "/", "a b", ""}; for (unsigned n = 1 + choose(4); n--;) o.set(k[choose(8)], oddDoc(d - 1)); return o; } }
}
J target(bool mayBeBad) { J t = J::obj(); t.set("slot", J::integer((int64_t)(mayBeBad && choose(4) == 3 ? choose(3) : 0))); t.set("at", J::integer((int64_t)(mayBeBad && choose(6) == 5 ? -2 : choose(3) ? (int)choose(4) : -1))); return t; }

struct Program { J p; std::vector<std::string> text; };
J program(int64_t libIndex) {
    J P = J::obj(), ops = J::arr(), remotes = J::obj(); int draft = 7; std::vector<J> roots, docs; const bool scripted = choose(4) == 3;
    if (!scripted) {
        if (choose(14) == 0) { uint32_t d = choose(8); draft = d < 5 ? 7 : d < 7 ? 4 : 3; J root; bigCase(root, docs, draft, 3); roots.push_back(root); P.set("custom", J::boolean(false)); }
        else if (choose(5) < 2) {
            graph::World w; graph::Cfg c; uint32_t d = choose(8); c.draft = d < 5 ? 7 : d < 7 ? 4 : 3; c.docs = choose(4); c.errors = choose(3) == 2; c.rootRef = chance(200); c.ids = choose(2); c.deep = choose(2); c.custom = choose(3) == 0; graph::generate(w, c);
            graph::Facts f = w.analyse(); draft = c.draft;
            if (f.rootLocalCycle || w.inPlaceCycle()) { J s = J::obj(); s.set("enum", J::arr({J::integer(1)})); roots.push_back(s); }
            else { roots.push_back(w.docs[0].j); for (auto &s : w.served) remotes.set(s.first, s.second->j); }
            for (int i = 0; i < 3; i++) { J x = w.rootInstance(); if (w.evalRoot(x) != graph::World::Diverges) docs.push_back(x); }
            P.set("custom", J::boolean(c.custom));
        } else {
            GenCfg cfg = pickCfg(true); draft = cfg.draft; Gen g(cfg); J root = g.schema(); Server srv; if (choose(2)) { spread(root, srv, g); for (auto &x : srv.docs) remotes.set(x.first, x.second); }
            for (int i = 0; i < 3; i++) docs.push_back(choose(4) ? g.docFor(root, root, 4) : g.doc());
            roots.push_back(root); P.set("custom", J::boolean(cfg.custom));
        }
        if (choose(2)) { J bad = roots[0]; for (unsigned n = 1 + choose(2); n--;) spoil(bad, 4); roots.push_back(bad); }
        if (!remotes.o.empty() && choose(4) == 3) spoil(remotes.o[choose((uint32_t)remotes.o.size())].second, 3);
    } else { J s = J::obj(); s.set("type", J::str("object")); roots.push_back(s); docs.push_back(J::obj()); P.set("custom", J::boolean(true)); }
    if (docs.empty()) docs.push_back(J::integer(1));
    P.set("lib", J::integer(libIndex)); P.set("draft", J::integer(draft)); P.set("strict", J::boolean(choose(2) == 0)); P.set("strong", J::boolean(choose(3) != 2)); P.set("simrx", J::boolean(choose(3) == 2)); P.set("unsynced", J::boolean(choose(4) == 3));
    bool built[3] = {}, used[3] = {};
    for (unsigned n = 2 + choose(8), i = 0; i < n; i++) {
        J o = J::obj(); uint32_t k = choose(22); int64_t slot = (int64_t)choose(3); if (i == 0 && !scripted) k = 0;
        if (scripted && k < 8) k = 12 + k % 8; 
        o.set("slot", J::integer(slot));
        auto memory = [&] { if (choose(2)) { o.set("mem", J::boolean(true)); if (choose(5) == 4) { o.set("failAt", J::integer((int64_t)(choose(2) ? choose(150) : chooseLog(40)))); faultPlanned("schema-memory-fails"); } } };
        if (k < 5) { o.set("op", J::str("build")); o.set("schema", roots[roots.size() > 1 && i && choose(3) == 2 ? 1 : 0]); o.set("fetch", J::integer(choose(12) == 11 ? 0 : choose(40) == 39 ? 2 : 1)); if (choose(8) == 7) { o.set("fetchFail", J::integer((int64_t)choose(3))); faultPlanned("fetch-fails"); } o.set("newParser", J::boolean(choose(2))); memory(); built[slot] = true; used[slot] = false; }
        else if (k < 10) { int64_t s = built[slot] || used[slot] ? slot : built[0] ? 0 : built[1] ? 1 : 2; o.set("slot", J::integer(s)); o.set("op", J::str("validate")); o.set("doc", choose(5) == 4 ? oddDoc(3) : pick(docs)); o.set("collect", J::boolean(choose(3))); }
        else if (k < 16) {
            static const char *w[] = {"sub", "id", "title", "desc", "invalid", "getid", "gettitle", "getdesc", "has", "allOf", "enum", "props", "deps", "mulInt", "mulDbl", "type", "poly", "pattern"};
            static const char *tn[] = {"string", "integer", "object", "bogus", "", "any", "number"};
            o.set("op", J::str("hand")); const char *what = w[choose(3) ? choose(18) : 0]; if (!strncmp(what, "get", 3) && choose(3)) what = w[choose(3) + 1]; o.set("what", J::str(what)); J t = target(choose(3) == 2); if (choose(16) != 15 || !strncmp(what, "get", 3)) t.set("slot", J::integer(slot)); o.set("target", t); o.set("other", [&] { J u = target(false); u.set("slot", J::integer(slot)); return u; }());
            o.set("text", J::str(!strcmp(what, "type") ? choose(8) == 7 ? std::string(200 + choose(400), 't').c_str() : tn[choose(7)] : std::vector<const char *>{"a", "b", "long enough to need the heap, surely"}[choose(3)])); o.set("n", J::integer((int64_t)choose(6) - 1)); o.set("flag", J::boolean(choose(3) == 2)); o.set("values", J::arr({J::integer(1), J::str("a")}));
            memory(); used[slot] = true; }
        else if (k < 18) { static const char *w[] = {"asBool", "asDouble", "asInteger", "asString", "getBool", "getDouble", "getInteger", "getNumber", "getString", "getArraySize", "getObjectSize", "show", "freeze", "maybe", "tries"}; o.set("op", J::str("adapter")); o.set("what", J::str(w[choose(3) ? 11 + choose(4) : choose(11)])); bool text = choose(5) == 4; J d = oddDoc(2); if (text) { d = J::str(std::vector<const char *>{"", "a", "true", "12", "1.5"}[choose(5)]); } o.set("doc", d); o.set("text", J::boolean(text)); }
        else if (k < 19) { o.set("op", J::str("pointer")); o.set("doc", oddDoc(3)); std::string p = oddPointer(); if (choose(6) == 5) p += "/" + std::string(100 + chooseLog(3000), 'y'); o.set("text", J::str(p)); }
        else if (k < 21) {   // a document in a file, perhaps damaged
            std::string t = dump(oddDoc(3)); switch (choose(6)) { case 3: if (!t.empty()) t.resize(choose((uint32_t)t.size())); break; case 4: if (!t.empty()) t[choose((uint32_t)t.size())] = "{}[],:\"1x\0\x80"[choose(11)]; break; case 5: t += choose(2) ? " x" : "]"; break; default: break; }
            o.set("op", J::str("load")); o.set("loader", J::integer((int64_t)choose((uint32_t)loaders().size()))); o.set("content", J::str(t)); if (choose(8) == 7) { o.set("path", J::str("/nonexistent/file.json")); faultPlanned("file-missing"); } }
        else { o.set("op", J::str("drop")); built[slot] = used[slot] = false; }
        ops.push(o);
    }
    P.set("ops", ops); P.set("remotes", remotes); return P;
}
std::string readAll(int fd) { std::string s; char b[4096]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, (size_t)n); return s; }

void run() {
    where("generating"); auto *o = (TwinOut *)mmap(nullptr, 2 * sizeof(TwinOut), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); TwinOut &e = o[0], &q = o[1];
    int64_t li = (int64_t)choose((uint32_t)libs().size()); J P = program(li);
    { J head = P; head.erase("ops"); ev("program %s", dump(head).c_str()); for (auto &x : P.get("ops")->a) ev("  %s", dump(x).c_str()); }
    // after the events: file descriptor numbers are not part of the history
    for (auto &x : P.get("ops")->a) if (const J *c = x.get("content")) if (!x.get("path")) { int fd = memfd_create("doc", 0); if (fd < 0 || write(fd, c->s.data(), c->s.size()) != (ssize_t)c->s.size()) internalError("memfd"); x.set("path", J::str(fmt("/proc/self/fd/%d", fd))); }
    where("running the build with exceptions");
    twin_run_exc(&P, &e);
    where("running the build without exceptions");
    int fd = memfd_create("twin", 0); pid_t pid = fork(); if (fd < 0 || pid < 0) internalError("fork");
    if (pid == 0) { if (const J *u = P.get("unsynced")) if (u->b) std::ios::sync_with_stdio(false); dup2(fd, 2); [&]() noexcept { twin_run_noexc(&P, &q); }(); _exit(0); }
    int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    std::string err = readAll(fd); std::string lib = libs()[(size_t)li]->name(); evaluated(1 + e.ops); steps(e.ops);
    auto show = [&] { return fmt("with exceptions: %u operations, %s%s%s\n%s\nwithout: %u operations, %s %d\nstandard error: %s\n%s", e.ops, e.err ? "error '" : "no error", e.what, e.err ? "'" : "", e.text, q.ops, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), err.substr(0, 600).c_str(), q.text); };
    std::string want(e.text, e.n), got(q.text, q.n); const char *opn = e.ops < P.get("ops")->a.size() ? P.get("ops")->a[e.ops].get("op")->s.c_str() : "end";
    for (uint32_t i = 0; i < e.ops; i++) if (P.get("ops")->a[i].get("op")->s == "load" && P.get("ops")->a[i].get("path")->s[1] == 'n') faultFired("file-missing");
    ev("%u operations, error %u '%s'; %s", e.ops, e.err, e.what, want.c_str());
    if (!e.err) {
        if (WIFSIGNALED(st) || !q.done || WEXITSTATUS(st)) violation(fmt("stops-without-error:%s", lib.c_str()), show());
        if (want != got || q.ops != e.ops) violation(fmt("results-differ:%s", lib.c_str()), show());
        if (err.size()) note("wrote to standard error: %s", err.c_str());
    } else {
        if (q.done || q.ops > e.ops) violation(fmt("continues-past-error:%s", opn), show());
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGABRT) violation(fmt("ends-by-signal-%d:%s", WTERMSIG(st), opn), show());
        err = err.size() > q.errAt ? err.substr(q.errAt) : "";
        if (want != got) violation(fmt("results-differ-before-error:%s", opn), show());
        if (err.empty() && e.err != 4) violation(fmt("no-message:%s", opn), show());
        // the message is the text of the exception; a bad_alloc and a failed assertion have texts of their own in each build
        std::string w = e.what, line = err.substr(0, err.find_last_not_of('\n') + 1); bool own = e.err == 3 || w.compare(0, 16, "assertion failed") == 0;
        bool same = err.find(w) != std::string::npos || (line.size() > 12 && w.size() > line.size() && w.compare(0, line.size(), line) == 0 && w[line.size()] == ';');   // the exceptions build appends context to some messages on their way out
        if (!own && (e.err == 1 || e.err == 2) && !same) violation(fmt("wrong-message:%s", opn), show());
        if (own && err.find("terminate called") == 0) violation(fmt("uncaught-exception:%s", opn), show());
        if (e.err == 3 || w.find("allocate memory") != std::string::npos) faultFired("schema-memory-fails");
        if (w.compare(0, 15, "Failed to fetch") == 0) faultFired("fetch-fails");
        faultFired("fatal-error"); nontrivial(); sig(mix(hashStr(w.substr(0, 40)), hashStr(opn)));
    }
    if (!e.err) sig(hashStr(want.substr(0, 200)));
}
Registrar r14({"C14", run, "one list of builds, validations, construction steps, adapter and pointer operations, run to its first error by a build with exceptions and, in a process of its own, by a build without",
    "valijson compiled twice, nlohmann/json, RapidJSON, JsonCpp and PicoJSON", "network serving remote documents, memory functions of the schema"});
}
}
