#include "twin.hpp"
#include "lib.hpp"
#include "io.hpp"
#include <cstring>
#include <exception>
#include <memory>
#include <typeinfo>
#include <unistd.h>
#include <iostream>
using namespace valijson;
namespace sim {
#ifdef TWIN_NOEXC
void (*regexCtorHook)(const std::string &) = nullptr;
void (*regexSearchHook)(const std::string &) = nullptr;
#endif
namespace {
TwinOut *out;
void say(const std::string &s) { size_t k = s.size(); if (out->n + k + 2 > sizeof out->text) k = sizeof out->text - out->n - 2; memcpy(out->text + out->n, s.data(), k); out->n += (uint32_t)k; out->text[out->n++] = '\n'; out->text[out->n] = 0; }
const std::string &str(const J &j, const char *k) { static const std::string e; const J *v = j.get(k); return v && v->t == J::Str ? v->s : e; }
int64_t num(const J &j, const char *k, int64_t d = 0) { const J *v = j.get(k); return v && v->t == J::Int ? v->i : d; }
bool flag(const J &j, const char *k) { const J *v = j.get(k); return v && v->t == J::Bool && v->b; }

// what the exceptions build does on the way out of a failed call has no counterpart in the other build
#ifdef TWIN_NOEXC
bool unwinding() { return false; }
#else
bool unwinding() { return std::uncaught_exceptions() > 0 || std::current_exception(); }
#endif
// memory functions that fail at a chosen call
long memCalls, memFailAt = -1, memLive;
void *memAlloc(size_t n) { if (memCalls++ == memFailAt) return nullptr; memLive++; return ::operator new(n); }
void memFree(void *p) { if (p) memLive--; ::operator delete(p); }

struct Custom : constraints::PolyConstraint {
    int64_t n; explicit Custom(int64_t k) : n(k) {}
    bool validate(const adapters::Adapter &a, const ValidationResults::Path &path, ValidationResults *r) const override {
        size_t have = 0; bool ok = true;
        if (a.isString()) ok = (int64_t)a.getString().size() >= n; else if (a.isArray()) { a.getArraySize(have); ok = (int64_t)have >= n; } else if (a.isObject()) { a.getObjectSize(have); ok = (int64_t)have >= n; }
        if (!ok && r) r->pushError(path, "custom constraint not met"); return ok;
    }
    constraints::Constraint *cloneInto(void *p) const override { return new (p) Custom(n); }
    size_t sizeOf() const override { return sizeof(Custom); }
};
struct Builder : ConstraintBuilder { constraints::Constraint *make(const adapters::Adapter &a) const override { return new Custom(a.asInteger()); } };   // asInteger() is an error for other values

std::string show(const adapters::Adapter &a) {
    std::string s;
    if (a.isObject()) { s = "{"; a.applyToObject([&](const std::string &k, const adapters::Adapter &v) { s += k + ":" + show(v) + ","; return true; }); return s + "}"; }
    if (a.isArray()) { s = "["; a.applyToArray([&](const adapters::Adapter &v) { s += show(v) + ","; return true; }); return s + "]"; }
    if (a.isString()) { s = "'"; return s + a.getString() + "'"; }
    if (a.isBool()) return a.getBool() ? "true" : "false";
    if (a.isInteger()) return std::to_string(a.getInteger());
    if (a.isDouble()) return "d" + std::to_string(a.getDouble());
    return "null";
}
std::string errors(const ValidationResults &r0) {
    ValidationResults r = r0; ValidationResults::Error e; std::string s;
    while (r.popError(e)) { s += " |"; for (auto &c : e.context) s += c; s += "|"; for (auto &t : e.jsonPointer) s += t; s += "|" + e.description; }
    return s;
}
struct Slot { std::unique_ptr<Schema> s; std::vector<const Subschema *> subs; bool mem = false; };
struct Machine {
    const J &P; const Lib *lib; std::unique_ptr<SchemaParser> parser; std::vector<Slot> slots; std::vector<void *> made; long fetches = 0;
    explicit Machine(const J &p) : P(p), lib(libs()[(size_t)num(p, "lib")]), slots(3) {}
    ~Machine() { for (auto p : made) lib->destroy(p); }
    void *doc(const J &j) { void *d = lib->make(j); made.push_back(d); return d; }
    const Subschema *target(const J &op, const char *k) { // {slot, at}: at -3 null, -2 shared empty, -1 root, else sub
        const J *t = op.get(k); if (!t) return nullptr; Slot &s = slots[(size_t)num(*t, "slot")]; int64_t at = num(*t, "at");
        if (at == -3 || !s.s) return nullptr; if (at == -2) return s.s->emptySubschema(); if (at == -1 || s.subs.empty()) return s.s->root(); return s.subs[(size_t)at % s.subs.size()];
    }
    void newSchema(Slot &s, const J &op) {
        s.s.reset(); s.subs.clear();
        if (flag(op, "mem")) { memCalls = 0; memLive = 0; memFailAt = (long)num(op, "failAt", -1); s.s.reset(new Schema(memAlloc, memFree)); s.mem = true; } else { s.s.reset(new Schema); s.mem = false; }
    }
    void build(const J &op) {
        Slot &s = slots[(size_t)num(op, "slot")]; newSchema(s, op);
        if (!parser || flag(op, "newParser")) { int64_t d = num(P, "draft"); parser.reset(new SchemaParser(d == 3 ? SchemaParser::kDraft3 : d == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7)); if (flag(P, "custom")) parser->addConstraintBuilder("x-custom", new Builder); }
        const J *remotes = P.get("remotes"); int64_t mode = num(op, "fetch"), failAt = num(op, "fetchFail", -1); long k = 0; std::vector<const void *> live;
        Lib::Fetch f = [&](const std::string &u) -> const void * {
            say("fetch " + u); if (k++ == failAt) return nullptr; const J *d = remotes->get(u); if (!d) return nullptr; const void *p = lib->make(*d); live.push_back(p); return p; };
        Lib::Free g = [&](const void *p) { size_t i = 0; while (i < live.size() && live[i] != p) i++; if (!unwinding()) say("release " + std::to_string(i)); if (i < live.size()) { live[i] = nullptr; lib->destroy(p); } };
        void *src = doc(*op.get("schema"));
        if (mode == 0) lib->populate(*parser, src, *s.s, nullptr, nullptr); else if (mode == 2) lib->populate(*parser, src, *s.s, &f, nullptr); else lib->populate(*parser, src, *s.s, &f, &g);
        size_t left = 0; for (auto p : live) if (p) left++;
        say("built, " + std::to_string(live.size()) + " fetched, " + std::to_string(left) + " kept");
    }
    void validate(const J &op) {
        Slot &s = slots[(size_t)num(op, "slot")]; if (!s.s) { say("no schema"); return; }
        const Subschema *at = op.get("at") ? target(op, "at") : s.s->root(); if (!at) at = s.s->root();
        bool strong = flag(P, "strong"), strict = flag(P, "strict"); void *d = doc(*op.get("doc")); ValidationResults r; bool v;
        if (flag(P, "simrx")) { ValidatorT<SimRegex> x(strong ? ValidatorT<SimRegex>::kStrongTypes : ValidatorT<SimRegex>::kWeakTypes, strict ? ValidatorT<SimRegex>::kStrictDateTime : ValidatorT<SimRegex>::kPermissiveDateTime); v = lib->validate(x, *at, d, flag(op, "collect") ? &r : nullptr); }
        else { Validator x(strong ? Validator::kStrongTypes : Validator::kWeakTypes, strict ? Validator::kStrictDateTime : Validator::kPermissiveDateTime); v = lib->validate(x, *at, d, flag(op, "collect") ? &r : nullptr); }
        say(std::string(v ? "valid" : "invalid") + errors(r));
    }
    void hand(const J &op) {
        Slot &s = slots[(size_t)num(op, "slot")]; if (!s.s) newSchema(s, op);
        const std::string &k = str(op, "what"); const Subschema *t = target(op, "target"), *u = target(op, "other"); std::string p = str(op, "text");
        { // references go to later subschemas only: no schema applies itself
            int64_t ti = -1, ui = -1; for (size_t i = 0; i < s.subs.size(); i++) { if (s.subs[i] == t) ti = (int64_t)i; if (s.subs[i] == u) ui = (int64_t)i; } if (ui <= ti) u = s.s->emptySubschema(); }
        if (k == "sub") { s.subs.push_back(s.s->createSubschema()); say("sub " + std::to_string(s.subs.size())); }
        else if (k == "id") { s.s->setSubschemaId(t, p); say("id set"); } else if (k == "title") { s.s->setSubschemaTitle(t, p); say("title set"); } else if (k == "desc") { s.s->setSubschemaDescription(t, p); say("description set"); }
        else if (k == "invalid") { s.s->setAlwaysInvalid(t, flag(op, "flag")); say("always invalid set"); }
        else if (k == "getid" && t) say("id " + t->getId()); else if (k == "gettitle" && t) say("title " + t->getTitle()); else if (k == "getdesc" && t) say("description " + t->getDescription());
        else if (k == "has" && t) say(std::string("has ") + (t->hasId() ? "i" : "-") + (t->hasTitle() ? "t" : "-") + (t->hasDescription() ? "d" : "-"));
        else if (k == "allOf") { constraints::AllOfConstraint c; if (u) c.addSubschema(u); s.s->addConstraintToSubschema(c, t); say("allOf added"); }
        else if (k == "enum") { constraints::EnumConstraint c; for (auto &v : op.get("values")->a) lib->withAdapter(v, [&](const adapters::Adapter &a) { c.addValue(a); }); s.s->addConstraintToSubschema(c, t); say("enum added"); }
        else if (k == "props") { constraints::PropertiesConstraint c; if (u) c.addPropertySubschema(p, u); c.setAdditionalPropertiesSubschema(s.s->emptySubschema()); s.s->addConstraintToSubschema(c, t); say("properties added"); }
        else if (k == "deps") { constraints::DependenciesConstraint c; c.addSchemaDependency(p, u); if (flag(op, "flag")) c.addSchemaDependency(p, u); s.s->addConstraintToSubschema(c, t); say("dependencies added"); }
        else if (k == "mulInt") { constraints::MultipleOfIntConstraint c; c.setDivisor(num(op, "n")); s.s->addConstraintToSubschema(c, t); say("multipleOf " + std::to_string(c.getDivisor())); }
        else if (k == "mulDbl") { constraints::MultipleOfDoubleConstraint c; c.setDivisor((double)num(op, "n") / 4); s.s->addConstraintToSubschema(c, t); say("multipleOf " + std::to_string(c.getDivisor())); }
        else if (k == "type") { constraints::TypeConstraint c; c.addNamedType(constraints::TypeConstraint::jsonTypeFromString(p)); s.s->addConstraintToSubschema(c, t); say("type added"); }
        else if (k == "poly") { Custom c(num(op, "n")); s.s->addConstraintToSubschema(c, t); say("custom added"); }
        else if (k == "pattern") { constraints::PatternConstraint c; c.setPattern(p); s.s->addConstraintToSubschema(c, t); say("pattern added"); }
        else say("nothing");
    }
    template <class F> void got(const char *k, F f) { say(std::string(k) + " " + f()); }
    void adapter(const J &op, const adapters::Adapter &a) {
        const std::string &k = str(op, "what"); using std::to_string; bool b = false; double d = 0; int64_t i = 0; std::string s; size_t z = 0;
        if (k == "asBool") say(a.asBool() ? "true" : "false"); else if (k == "asDouble") say(to_string(a.asDouble())); else if (k == "asInteger") say(to_string(a.asInteger())); else if (k == "asString") say(a.asString());
        else if (k == "getBool") say(a.getBool() ? "true" : "false"); else if (k == "getDouble") say(to_string(a.getDouble())); else if (k == "getInteger") say(to_string(a.getInteger())); else if (k == "getNumber") say(to_string(a.getNumber())); else if (k == "getString") say(a.getString());
        else if (k == "getArraySize") say(to_string(a.getArraySize())); else if (k == "getObjectSize") say(to_string(a.getObjectSize()));
        else if (k == "show") say(show(a));
        else if (k == "freeze") { std::unique_ptr<adapters::FrozenValue> f(a.freeze()), g(f->clone()); say(std::string("frozen ") + (g->equalTo(a, true) ? "equal" : "different")); }
        else if (k == "maybe") say(std::string() + (a.maybeArray() ? 'a' : '-') + (a.maybeBool() ? 'b' : '-') + (a.maybeDouble() ? 'd' : '-') + (a.maybeInteger() ? 'i' : '-') + (a.maybeNull() ? 'n' : '-') + (a.maybeObject() ? 'o' : '-') + (a.maybeString() ? 's' : '-'));
        else { bool r[9] = {a.asBool(b), a.asDouble(d), a.asInteger(i), a.asString(s), a.getBool(b), a.getDouble(d), a.getInteger(i), a.getString(s), a.getArraySize(z)}; std::string t = "tries "; for (bool x : r) t += x ? '1' : '0'; say(t + " " + to_string(b) + " " + to_string(d) + " " + to_string(i) + " " + s + " " + to_string(z)); }
    }
    void run() {
        for (auto &op : P.get("ops")->a) {
            const std::string &k = str(op, "op"); out->errAt = (uint32_t)lseek(2, 0, SEEK_CUR);
            if (k == "build") build(op); else if (k == "validate") validate(op); else if (k == "hand") hand(op);
            else if (k == "adapter") { if (flag(op, "text")) { adapters::StdStringAdapter a(op.get("doc")->s); adapter(op, a); } else lib->withAdapter(*op.get("doc"), [&](const adapters::Adapter &a) { adapter(op, a); }); }
            else if (k == "pointer") { void *d = doc(*op.get("doc")); lib->pointer(d, str(op, "text"), [&](const adapters::Adapter &a) { say("found " + show(a)); }); }
            else if (k == "load") { const Loader *l = loaders()[(size_t)num(op, "loader")]; void *d = l->make(); bool ok = l->load(d, str(op, "path")); say(std::string(l->name()) + (ok ? " loaded " + (l->raw() ? l->rawGet(d) : dump(l->get(d))) : " load failed")); l->destroy(d); }
            else if (k == "drop") { Slot &s = slots[(size_t)num(op, "slot")]; bool m = s.mem && s.s; s.s.reset(); s.subs.clear(); if (m) say("live blocks " + std::to_string(memLive)); else say("dropped"); }
            out->ops++;
        }
        for (auto &s : slots) { bool m = s.mem && s.s; s.s.reset(); if (m) say("live blocks " + std::to_string(memLive)); }
        out->done = 1;
    }
};
}
}
#ifdef TWIN_NOEXC
extern "C" void twin_run_noexc(const void *program, sim::TwinOut *o) { sim::out = o; sim::Machine m(*static_cast<const sim::J *>(program)); m.run(); }
#else
extern "C" void twin_run_exc(const void *program, sim::TwinOut *o) {
    sim::out = o; auto end = [&](uint32_t k, const char *w) { o->err = k; strncpy(o->what, w, sizeof o->what - 1); };
    try { sim::Machine m(*static_cast<const sim::J *>(program)); m.run(); }
    catch (const std::bad_alloc &e) { end(3, e.what()); }
    catch (const std::exception &e) { end(typeid(e) == typeid(std::runtime_error) ? 1 : typeid(e) == typeid(std::logic_error) ? 2 : 4, e.what()); }
    catch (...) { end(4, "unknown"); }
}
#endif
