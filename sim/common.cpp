#include "common.hpp"
#include <functional>
#include <regex>
#include <system_error>
namespace sim {

void (*regexCtorHook)(const std::string &) = nullptr;
void (*regexSearchHook)(const std::string &) = nullptr;
void (*customMakeHook)() = nullptr;
void (*customValidateHook)(const valijson::adapters::Adapter &) = nullptr;
void (*customCloneHook)() = nullptr;
long customAlive = 0;

std::string Outcome::text() const {
    switch (kind) {
    case Returned: return fmt("returned verdict=%d errors=[%s]", verdict, errors.c_str());
    case StdException: return "exception: " + what;
    case BadAlloc: return "bad_alloc";
    case Sim: return fmt("injected exception %d", id);
    case Odd: return fmt("injected odd exception %d", id);
    default: return "unknown exception";
    }
}
std::string errorsText(const valijson::ValidationResults &r) {
    std::string s;
    for (const auto &e : r) { for (auto &c : e.context) s += c; s += "|" + e.jsonPointer + "|" + e.description + "\n"; }
    return s;
}
Outcome doValidate(AnyValidator &v, const Lib *l, const valijson::Subschema &s, const void *doc, valijson::ValidationResults *r) {
    return guarded([&](Outcome &o) {
        { heap::LibCall c; o.verdict = v.run(l, s, doc, r); }
        if (r) o.errors = errorsText(*r);
    });
}
namespace {
template <class B> struct SimAs : B, SimTag { template <class... A> SimAs(int i, int t, A... a) : B(a...), SimTag{i, t} {} };
const char *const kText = "injected callback failure";
}
void throwSim(uint32_t type, int id) {
    static char num[16];
    switch (type) {
    case 0: throw SimError(id);
    case 1: throw SimOdd{id};
    case 2: throw id;
    case 3: snprintf(num, sizeof num, "%d", id); throw (const char *)num;
    case 4: throw SimAs<std::bad_alloc>(id, 4);
    case 5: throw SimAs<std::out_of_range>(id, 5, kText);
    case 6: throw SimAs<std::invalid_argument>(id, 6, kText);
    case 7: throw SimAs<std::logic_error>(id, 7, kText);
    case 8: throw SimAs<std::length_error>(id, 8, kText);
    case 9: throw SimAs<std::regex_error>(id, 9, std::regex_constants::error_paren);
    case 10: throw SimAs<std::system_error>(id, 10, std::make_error_code(std::errc::timed_out));
    case 11: throw SimAs<std::domain_error>(id, 11, kText);
    case 12: throw SimAs<std::bad_function_call>(id, 12);
    default: throw SimAs<std::exception>(id, 13);
    }
}
Outcome freshValidate(const Options &o, const Lib *l, const valijson::Subschema &s, const void *doc) {
    heap::Harness h;
    AnyValidator v(o); valijson::ValidationResults r;
    return guarded([&](Outcome &out) { out.verdict = v.run(l, s, doc, o.collect ? &r : nullptr); if (o.collect) out.errors = errorsText(r); });
}

Server::Server() {
    f = [this](const std::string &u) { heap::Harness h; return fetch(u); };
    g = [this](const void *d) { heap::Harness h; for (size_t i = 0; i < live.size(); i++) if (live[i] == d) { live.erase(live.begin() + i); freed++; lib->destroy(d); return; }
        violation("release-unknown", "release function called with a pointer that is not a live fetched document"); };
}
const void *Server::fetch(const std::string &u) {
    fetched.push_back(u); if (onFetch) onFetch(*this, u); if (down) return nullptr;
    for (auto &d : docs) if (d.first == u) { const void *p = lib->make(d.second); live.push_back(p); return p; }
    return nullptr;
}
void spread(J &root, Server &srv, Gen &) {
    J *defs = root.get("definitions");
    if (!defs || choose(2) == 0) return;
    // definition k moves to http://sim/d<k>.json#/definitions/<name>; references inside it to other
    // definitions keep working because every remote document carries the remaining definitions, too
    for (size_t k = 0; k < defs->o.size(); k++) {
        if (choose(2) == 0) continue;
        std::string uri = "http://sim/d" + std::to_string(k) + ".json";
        J d = J::obj(), dd = J::obj();
        for (size_t m = k; m < defs->o.size(); m++) dd.o.push_back(defs->o[m]);
        d.set("definitions", dd); srv.docs.emplace_back(uri, d);
        std::string esc; for (char c : defs->o[k].first) esc += c == '/' ? std::string("~1") : c == '~' ? std::string("~0") : std::string(1, c);
        J r = J::obj(); r.set("$ref", J::str(uri + "#/definitions/" + esc)); defs->o[k].second = r;
    }
}
valijson::SchemaParser::Version versionOf(int d) { return d == 3 ? valijson::SchemaParser::kDraft3 : d == 4 ? valijson::SchemaParser::kDraft4 : valijson::SchemaParser::kDraft7; }
const Lib *pickLib(std::initializer_list<const char *> names) {
    std::vector<const Lib *> v;
    for (auto l : libs()) { if (names.size() == 0) v.push_back(l); else for (auto n : names) if (std::string(n) == l->name()) v.push_back(l); }
    if (v.empty()) internalError("no library");
    return pick(v);
}
GenCfg pickCfg(bool custom) {
    GenCfg c; uint32_t d = choose(8); c.draft = d < 5 ? 7 : d < 7 ? 4 : 3; c.depth = 1 + (int)choose(3); c.custom = custom && choose(2);
    c.refs = choose(4) != 0; c.formats = choose(4) != 0; c.patterns = choose(4) != 0; c.maxMembers = 2 + choose(3);
    return c;
}
Options pickOptions(const Lib *l) {
    Options o; o.strong = l->strong() ? choose(4) != 3 : false; o.strict = choose(3) != 2; o.collect = choose(4) != 3; o.simRegex = choose(4) == 3; return o;
}

namespace {
struct CustomConstraint : valijson::constraints::PolyConstraint {
    int64_t n; std::string payload;
    explicit CustomConstraint(int64_t k) : n(k), payload(40 + (size_t)k, 'p') { customAlive++; }
    CustomConstraint(const CustomConstraint &o) : PolyConstraint(o), n(o.n), payload(o.payload) { customAlive++; }
    ~CustomConstraint() override { customAlive--; }
    bool validate(const valijson::adapters::Adapter &t, const valijson::ValidationResults::Path &path, valijson::ValidationResults *r) const override {
        if (customValidateHook) customValidateHook(t);
        bool ok = true;
        if (t.isString()) ok = (int64_t)t.asString().size() >= n;
        else if (t.isArray()) ok = (int64_t)t.getArraySize() >= n;
        else if (t.isObject()) ok = (int64_t)t.getObjectSize() >= n;
        if (!ok && r) r->pushError(path, "custom constraint needs " + std::to_string(n));
        return ok;
    }
private:
    Constraint *cloneInto(void *p) const override { if (customCloneHook) customCloneHook(); return new (p) CustomConstraint(*this); }
    size_t sizeOf() const override { return sizeof(CustomConstraint); }
};
}
valijson::constraints::Constraint *CustomBuilder::make(const valijson::adapters::Adapter &a) const {
    if (customMakeHook) customMakeHook();
    int64_t n = 0; a.asInteger(n);
    return new CustomConstraint(n);
}
void checkLeaks(const char *when) {
    size_t n = 0; std::string r = heap::leakReport(n);
    evaluated();
    if (n) violation("leak", fmt("%zu blocks obtained by the library are still allocated after %s:%s", n, when, r.c_str()));
    if (customAlive != 0) violation("leak-object", fmt("%ld custom constraint objects still alive after %s", customAlive, when));
}
} // namespace sim
