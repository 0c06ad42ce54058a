// C17: schemas assembled through the programming interface, against a model of the operations that succeeded.
#include "common.hpp"
#include <cstring>
#include <algorithm>
#include <map>
#include <set>
#include <typeinfo>
using namespace valijson;
namespace sim {
namespace {
using namespace valijson::constraints;

// ---------------------------------------------------------------- model
enum Kind { kAllOf, kAnyOf, kOneOf, kNot, kCond, kConst, kContains, kDeps, kEnum, kLinear, kMax, kMaxItems, kMaxLength, kMaxProps, kMin, kMinItems, kMinLength, kMinProps,
    kMulInt, kMulDbl, kPattern, kPoly, kProps, kPropNames, kRequired, kSingular, kType, kUnique, kFormat, kKinds };
const char *kNames[] = {"allOf", "anyOf", "oneOf", "not", "if", "const", "contains", "dependencies", "enum", "items[]", "maximum", "maxItems", "maxLength", "maxProperties", "minimum", "minItems", "minLength", "minProperties",
    "multipleOf", "multipleOf(double)", "pattern", "poly", "properties", "propertyNames", "required", "items", "type", "uniqueItems", "format"};
constexpr int kEmpty = -1, kNone = -2;    // the shared empty subschema, no subschema
struct M {                                // one constraint
    Kind k = kAllOf; std::vector<int> subs; std::vector<J> vals; int64_t n = 0; bool flag = false; std::string s;
    std::vector<std::pair<std::string, int>> props, pats; int extra = kNone; std::vector<std::pair<std::string, std::string>> deps; std::vector<std::string> names; std::vector<int> types; int marker = 0; const std::type_info *type = nullptr;
    int minSub() const { int m = 1 << 20; auto see = [&](int x) { if (x >= 0 && x < m) m = x; }; for (int x : subs) see(x); for (auto &p : props) see(p.second); for (auto &p : pats) see(p.second); see(extra); return m; }
};
struct Node { bool invalid = false; std::vector<M> cs; bool hasTitle = false, hasDesc = false, hasId = false; std::string title, desc, id; };
std::string text(const M &m) {
    std::string r = kNames[m.k]; for (int x : m.subs) r += fmt(" #%d", x); for (auto &v : m.vals) r += " " + dump(v); if (m.n || m.k >= kMax) r += fmt(" n=%lld", (long long)m.n); if (m.flag) r += " flag"; if (!m.s.empty()) r += " '" + m.s + "'";
    for (auto &p : m.props) r += " " + p.first + fmt(":#%d", p.second); for (auto &p : m.pats) r += " /" + p.first + fmt("/:#%d", p.second); if (m.extra != kNone) r += fmt(" extra #%d", m.extra); for (auto &d : m.deps) r += " " + d.first + "->" + d.second;
    for (auto &x : m.names) r += " " + x; for (int t : m.types) r += fmt(" t%d", t); return r;
}
bool eval(const std::vector<Node> &g, int at, const J &x);
bool evalC(const std::vector<Node> &g, const M &m, const J &x) {
    auto sub = [&](int k, const J &y) { return eval(g, k, y); };
    switch (m.k) {
    case kAllOf: for (int k : m.subs) if (!sub(k, x)) return false; return true;
    case kAnyOf: for (int k : m.subs) if (sub(k, x)) return true; return false;
    case kOneOf: { int n = 0; for (int k : m.subs) n += sub(k, x); return n == 1; }
    case kNot: return !sub(m.subs[0], x);
    case kCond: { int k = sub(m.subs[0], x) ? m.subs[1] : m.subs[2]; return k == kNone || sub(k, x); }
    case kConst: return jeq(m.vals[0], x);
    case kEnum: for (auto &v : m.vals) if (jeq(v, x)) return true; return false;
    case kContains: if (x.t != J::Arr) return true; for (auto &v : x.a) if (sub(m.subs[0], v)) return true; return false;
    case kDeps: if (x.t != J::Obj) return true; for (auto &d : m.deps) if (x.get(d.first) && !x.get(d.second)) return false; for (auto &p : m.props) if (x.get(p.first) && !sub(p.second, x)) return false; return true;
    case kLinear: if (x.t != J::Arr) return true; for (size_t i = 0; i < x.a.size(); i++) { if (i < m.subs.size()) { if (!sub(m.subs[i], x.a[i])) return false; } else if (m.extra == kNone || !sub(m.extra, x.a[i])) return false; } return true;
    case kMax: return !x.isNum() || (m.flag ? x.num() < (double)m.n : x.num() <= (double)m.n);
    case kMin: return !x.isNum() || (m.flag ? x.num() > (double)m.n : x.num() >= (double)m.n);
    case kMaxItems: return x.t != J::Arr || (int64_t)x.a.size() <= m.n;
    case kMinItems: return x.t != J::Arr || (int64_t)x.a.size() >= m.n;
    case kMaxLength: return x.t != J::Str || (int64_t)x.s.size() <= m.n;
    case kMinLength: return x.t != J::Str || (int64_t)x.s.size() >= m.n;
    case kMaxProps: return x.t != J::Obj || (int64_t)x.o.size() <= m.n;
    case kMinProps: return x.t != J::Obj || (int64_t)x.o.size() >= m.n;
    case kMulInt: case kMulDbl: if (x.t == J::Int) return x.i % m.n == 0; return x.t != J::Dbl || x.d / (double)m.n == (double)(int64_t)(x.d / (double)m.n);
    case kPattern: return x.t != J::Str || x.s.find(m.s) != std::string::npos;
    case kPoly: return !(x.t == J::Str && (int64_t)x.s.size() < m.n) && !(x.t == J::Int && x.i < m.n);
    case kProps: if (x.t != J::Obj) return true;
        for (auto &v : x.o) { bool hit = false; for (auto &p : m.props) if (p.first == v.first) { hit = true; if (!sub(p.second, v.second)) return false; } for (auto &p : m.pats) if (v.first.find(p.first) != std::string::npos) { hit = true; if (!sub(p.second, v.second)) return false; }
            if (!hit && (m.extra == kNone || !sub(m.extra, v.second))) return false; } return true;
    case kPropNames: if (x.t != J::Obj) return true; for (auto &v : x.o) if (!sub(m.subs[0], J::str(v.first))) return false; return true;
    case kRequired: if (x.t != J::Obj) return true; for (auto &n : m.names) if (!x.get(n)) return false; return true;
    case kSingular: if (x.t != J::Arr) return true; for (auto &v : x.a) if (!sub(m.subs[0], v)) return false; return true;
    case kType: for (int t : m.types) { using T = TypeConstraint; if (t == T::kAny || (t == T::kArray && x.t == J::Arr) || (t == T::kBoolean && x.t == J::Bool) || (t == T::kInteger && x.t == J::Int) || (t == T::kNull && x.t == J::Null) || (t == T::kNumber && x.isNum()) || (t == T::kObject && x.t == J::Obj) || (t == T::kString && x.t == J::Str)) return true; }
        for (int k : m.subs) if (sub(k, x)) return true; return false;
    case kUnique: if (x.t != J::Arr) return true; for (size_t i = 0; i < x.a.size(); i++) for (size_t k = i + 1; k < x.a.size(); k++) if (jeq(x.a[i], x.a[k])) return false; return true;
    case kFormat: return x.t != J::Str || x.s == "127.0.0.1";
    default: return true;
    }
}
bool eval(const std::vector<Node> &g, int at, const J &x) {
    if (at == kEmpty) return true; const Node &n = g[(size_t)at]; if (n.invalid) return false;
    for (auto &m : n.cs) if (!evalC(g, m, x)) return false; return true;
}

// ---------------------------------------------------------------- constraint objects
std::vector<int> *visited;     // markers of poly constraints in the order in which they are consulted
bool cloneThrows;
struct Poly : PolyConstraint {
    int64_t n; int marker; std::string payload;
    Poly(int64_t k, int m) : n(k), marker(m), payload(48, 'q') { customAlive++; }
    Poly(const Poly &o) : PolyConstraint(o), n(o.n), marker(o.marker), payload(o.payload) { customAlive++; }
    ~Poly() override { customAlive--; }
    bool validate(const adapters::Adapter &t, const ValidationResults::Path &path, ValidationResults *r) const override {
        if (visited) { heap::Harness h; visited->push_back(marker); }
        bool ok = true; if (t.isString()) ok = (int64_t)t.asString().size() >= n; else if (t.isInteger()) ok = t.asInteger() >= n;
        if (!ok && r) r->pushError(path, "poly " + std::to_string(marker)); return ok;
    }
    Constraint *cloneInto(void *p) const override { if (cloneThrows) { heap::Harness h; throw SimError(7); } return new (p) Poly(*this); }
    size_t sizeOf() const override { return sizeof(Poly); }
};
struct SchemaState;
const Subschema *ptr(SchemaState &s, int k);
struct SchemaState { std::unique_ptr<Schema> s; std::vector<Node> g; std::vector<const Subschema *> p; int pair = -1; };
const Subschema *ptr(SchemaState &s, int k) { return k == kNone ? nullptr : k == kEmpty ? s.s->emptySubschema() : k == 0 ? s.s->root() : s.p[(size_t)k]; }

template <class C> C *mk(int pair) { return pair < 0 ? new C : new C(heap::allocFn(pair), heap::freeFn(pair)); }
std::unique_ptr<Constraint> object(SchemaState &s, const M &m, const Lib *lib, int pair) {
    std::unique_ptr<Constraint> r; auto P = [&](int k) { return ptr(s, k); };
    auto seq = [&](auto *c) { for (int k : m.subs) c->addSubschema(P(k)); return std::unique_ptr<Constraint>(c); };
    switch (m.k) {
    case kAllOf: return seq(mk<AllOfConstraint>(pair)); case kAnyOf: return seq(mk<AnyOfConstraint>(pair)); case kOneOf: return seq(mk<OneOfConstraint>(pair));
    case kNot: { auto c = mk<NotConstraint>(pair); c->setSubschema(P(m.subs[0])); r.reset(c); break; }
    case kCond: { auto c = mk<ConditionalConstraint>(pair); c->setIfSubschema(P(m.subs[0])); c->setThenSubschema(P(m.subs[1])); c->setElseSubschema(P(m.subs[2])); r.reset(c); break; }
    case kConst: { auto c = mk<ConstConstraint>(pair); r.reset(c); std::unique_ptr<adapters::FrozenValue> z; lib->withAdapter(m.vals[0], [&](const adapters::Adapter &a) { c->setValue(a); }); break; }
    case kEnum: { auto c = mk<EnumConstraint>(pair); r.reset(c); bool frozen = m.flag; for (auto &v : m.vals) lib->withAdapter(v, [&](const adapters::Adapter &a) { if (frozen) { std::unique_ptr<adapters::FrozenValue> f(a.freeze()); c->addValue(*f); } else c->addValue(a); }); break; }
    case kContains: { auto c = mk<ContainsConstraint>(pair); c->setSubschema(P(m.subs[0])); r.reset(c); break; }
    case kDeps: { auto c = mk<DependenciesConstraint>(pair); r.reset(c); for (size_t i = 0; i < m.deps.size(); i++) { if (i % 2) { std::vector<std::string> v = {m.deps[i].second}; c->addPropertyDependencies(m.deps[i].first, v); } else c->addPropertyDependency(m.deps[i].first, m.deps[i].second); } for (auto &p : m.props) c->addSchemaDependency(p.first, P(p.second)); break; }
    case kLinear: { auto c = mk<LinearItemsConstraint>(pair); r.reset(c); for (int k : m.subs) c->addItemSubschema(P(k)); if (m.extra != kNone) c->setAdditionalItemsSubschema(P(m.extra)); break; }
    case kMax: { auto c = mk<MaximumConstraint>(pair); c->setMaximum((double)m.n); c->setExclusiveMaximum(m.flag); r.reset(c); break; }
    case kMin: { auto c = mk<MinimumConstraint>(pair); c->setMinimum((double)m.n); c->setExclusiveMinimum(m.flag); r.reset(c); break; }
    case kMaxItems: { auto c = mk<MaxItemsConstraint>(pair); c->setMaxItems((uint64_t)m.n); r.reset(c); break; }
    case kMinItems: { auto c = mk<MinItemsConstraint>(pair); c->setMinItems((uint64_t)m.n); r.reset(c); break; }
    case kMaxLength: { auto c = mk<MaxLengthConstraint>(pair); c->setMaxLength((uint64_t)m.n); r.reset(c); break; }
    case kMinLength: { auto c = mk<MinLengthConstraint>(pair); c->setMinLength((uint64_t)m.n); r.reset(c); break; }
    case kMaxProps: { auto c = mk<MaxPropertiesConstraint>(pair); c->setMaxProperties((uint64_t)m.n); r.reset(c); break; }
    case kMinProps: { auto c = mk<MinPropertiesConstraint>(pair); c->setMinProperties((uint64_t)m.n); r.reset(c); break; }
    case kMulInt: { auto c = mk<MultipleOfIntConstraint>(pair); c->setDivisor(m.n); r.reset(c); break; }
    case kMulDbl: { auto c = mk<MultipleOfDoubleConstraint>(pair); c->setDivisor((double)m.n); r.reset(c); break; }
    case kPattern: { auto c = mk<PatternConstraint>(pair); r.reset(c); c->setPattern(m.s); break; }
    case kPoly: r.reset(new Poly(m.n, m.marker)); break;
    case kProps: { auto c = mk<PropertiesConstraint>(pair); r.reset(c); for (auto &p : m.props) c->addPropertySubschema(p.first, P(p.second)); for (auto &p : m.pats) c->addPatternPropertySubschema(p.first.c_str(), P(p.second)); c->setAdditionalPropertiesSubschema(P(m.extra)); break; }
    case kPropNames: { auto c = mk<PropertyNamesConstraint>(pair); c->setSubschema(P(m.subs[0])); r.reset(c); break; }
    case kRequired: { auto c = mk<RequiredConstraint>(pair); r.reset(c); for (auto &n : m.names) c->addRequiredProperty(n); break; }
    case kSingular: { auto c = mk<SingularItemsConstraint>(pair); c->setItemsSubschema(P(m.subs[0])); r.reset(c); break; }
    case kType: { auto c = mk<TypeConstraint>(pair); r.reset(c); for (int t : m.types) c->addNamedType((TypeConstraint::JsonType)t); for (int k : m.subs) c->addSchemaType(P(k)); break; }
    case kUnique: r.reset(mk<UniqueItemsConstraint>(pair)); break;
    case kFormat: { auto c = new FormatConstraint; r.reset(c); c->setFormat(m.s); break; }
    default: internalError("constraint kind");
    }
    return r;
}
// the caller changes its own constraint object after it was added; the schema must not notice
void mutate(Constraint &c0, const M &m, const Subschema *e, const Lib *lib) {
    J other = J::str("changed afterwards, long enough to need the heap"); 
    switch (m.k) {
    case kAllOf: static_cast<AllOfConstraint &>(c0).addSubschema(e); break; case kAnyOf: static_cast<AnyOfConstraint &>(c0).addSubschema(e); break; case kOneOf: static_cast<OneOfConstraint &>(c0).addSubschema(e); break;
    case kNot: static_cast<NotConstraint &>(c0).setSubschema(e); break; case kContains: static_cast<ContainsConstraint &>(c0).setSubschema(e); break;
    case kCond: { auto &c = static_cast<ConditionalConstraint &>(c0); c.setIfSubschema(e); c.setThenSubschema(e); c.setElseSubschema(e); break; }
    case kConst: lib->withAdapter(other, [&](const adapters::Adapter &a) { static_cast<ConstConstraint &>(c0).setValue(a); }); break;
    case kEnum: for (int i = 0; i < 3; i++) lib->withAdapter(i ? J::integer(i) : other, [&](const adapters::Adapter &a) { static_cast<EnumConstraint &>(c0).addValue(a); }); break;
    case kDeps: { auto &c = static_cast<DependenciesConstraint &>(c0); for (auto n : {"a", "b", "c"}) c.addPropertyDependency(std::string(n), std::string("never")); break; }
    case kLinear: { auto &c = static_cast<LinearItemsConstraint &>(c0); c.addItemSubschema(e); c.setAdditionalItemsSubschema(nullptr); break; }
    case kMax: static_cast<MaximumConstraint &>(c0).setMaximum(-1e9); break; case kMin: static_cast<MinimumConstraint &>(c0).setMinimum(1e9); break;
    case kMaxItems: static_cast<MaxItemsConstraint &>(c0).setMaxItems(0); break; case kMinItems: static_cast<MinItemsConstraint &>(c0).setMinItems(99); break;
    case kMaxLength: static_cast<MaxLengthConstraint &>(c0).setMaxLength(0); break; case kMinLength: static_cast<MinLengthConstraint &>(c0).setMinLength(99); break;
    case kMaxProps: static_cast<MaxPropertiesConstraint &>(c0).setMaxProperties(0); break; case kMinProps: static_cast<MinPropertiesConstraint &>(c0).setMinProperties(99); break;
    case kMulInt: static_cast<MultipleOfIntConstraint &>(c0).setDivisor(1000003); break; case kMulDbl: static_cast<MultipleOfDoubleConstraint &>(c0).setDivisor(1000003.5); break;
    case kPattern: static_cast<PatternConstraint &>(c0).setPattern(std::string("zzz changed afterwards, long enough to need the heap")); break;
    case kPoly: static_cast<Poly &>(c0).n = 99; break;
    case kProps: { auto &c = static_cast<PropertiesConstraint &>(c0); c.addPropertySubschema("d", e); c.setAdditionalPropertiesSubschema(nullptr); break; }
    case kPropNames: static_cast<PropertyNamesConstraint &>(c0).setSubschema(e); break;
    case kRequired: static_cast<RequiredConstraint &>(c0).addRequiredProperty("never"); break;
    case kSingular: static_cast<SingularItemsConstraint &>(c0).setItemsSubschema(nullptr); break;
    case kType: { auto &c = static_cast<TypeConstraint &>(c0); for (int t = 0; t < 8; t++) c.addNamedType((TypeConstraint::JsonType)t); break; }
    case kFormat: static_cast<FormatConstraint &>(c0).setFormat("date"); break;
    default: break;
    }
}
// ---------------------------------------------------------------- generation
const char *kProp[] = {"a", "b", "c"};
J val(int d) { switch (choose(d > 0 ? 7 : 5)) { case 0: return J::integer(choose(6)); case 1: return J::str(std::string(choose(3), 'a') + (choose(2) ? "b" : "")); case 2: return J::boolean(choose(2)); case 3: return choose(2) ? J::null() : J::integer(-3); case 4: return J::str(choose(2) ? "127.0.0.1" : "abcab");
    case 5: { J a = J::arr(); unsigned n = choose(4); for (unsigned i = 0; i < n; i++) a.push(val(d - 1)); return a; }
    default: { J o = J::obj(); for (auto k : kProp) if (choose(2)) o.set(k, val(d - 1)); return o; } } }
int markers;
M gen(const SchemaState &s, int at) {
    M m; m.k = (Kind)choose(kKinds); auto S = [&] { int n = (int)s.g.size() - at - 1; return n > 0 && choose(5) ? at + 1 + (int)choose((uint32_t)n) : kEmpty; };
    switch (m.k) {
    case kAllOf: case kAnyOf: case kOneOf: { unsigned n = 1 + choose(3); for (unsigned i = 0; i < n; i++) m.subs.push_back(S()); break; }
    case kNot: case kContains: case kPropNames: case kSingular: m.subs.push_back(S()); break;
    case kCond: m.subs = {S(), choose(4) ? S() : kNone, choose(4) ? S() : kNone}; break;
    case kConst: m.vals.push_back(val(2)); break;
    case kEnum: { unsigned n = 1 + choose(4); for (unsigned i = 0; i < n; i++) m.vals.push_back(val(2)); m.flag = choose(2); break; }
    case kDeps: { unsigned n = choose(3); for (unsigned i = 0; i < n; i++) m.deps.push_back({kProp[choose(3)], kProp[choose(3)]}); n = choose(2); for (unsigned i = 0; i < n; i++) m.props.push_back({kProp[i], S()}); break; }
    case kLinear: { unsigned n = 1 + choose(2); for (unsigned i = 0; i < n; i++) m.subs.push_back(S()); if (choose(3)) m.extra = S(); break; }
    case kMax: case kMin: m.n = choose(6); m.flag = choose(2); break;
    case kMulInt: case kMulDbl: m.n = 1 + choose(3); break;
    case kPattern: m.s = choose(2) ? "ab" : "b"; break;
    case kPoly: m.n = choose(3); m.marker = ++markers; break;
    case kProps: { for (auto k : kProp) if (choose(3) == 0) m.props.push_back({k, S()}); if (choose(3) == 0) m.pats.push_back({kProp[choose(3)], S()}); if (choose(4)) m.extra = S(); break; }
    case kRequired: { for (auto k : kProp) if (choose(2)) m.names.push_back(k); break; }
    case kType: { unsigned n = choose(4); std::set<int> t; for (unsigned i = 0; i < n; i++) t.insert((int)choose(8)); m.types.assign(t.begin(), t.end()); n = choose(2); for (unsigned i = 0; i < n; i++) m.subs.push_back(S()); if (m.types.empty() && m.subs.empty()) m.types.push_back(0); break; }
    case kFormat: m.s = "ipv4"; break;
    case kUnique: break;
    default: m.n = choose(4); break;
    }
    return m;
}
void order(const std::vector<Node> &, const std::vector<int> &seen, const std::vector<int> &want) { if (seen != want) { std::string a, b; for (int x : seen) a += fmt(" %d", x); for (int x : want) b += fmt(" %d", x); violation("wrong-constraints", "constraints of a subschema consulted in the order" + a + ", added in the order" + b); } }

void runC17() {
    where("setup"); const Lib *lib = pickLib(); markers = 0; cloneThrows = false; visited = nullptr;
    std::vector<SchemaState> ss(2 + choose(2)); for (size_t i = 0; i < ss.size(); i++) ss[i].pair = (int)choose(3) - 1;
    heap::pairReset(); heap::ledgerReset(); customAlive = 0; heap::setBudget(2000000);
    for (auto &s : ss) { heap::LibCall c; s.s.reset(s.pair < 0 ? new Schema : new Schema(heap::allocFn(s.pair), heap::freeFn(s.pair))); heap::Harness h; s.g.emplace_back(); s.p.push_back(nullptr); }
    struct Keep { size_t s; M m; std::unique_ptr<Constraint> c; }; std::vector<Keep> kept;
    std::vector<J> docs; for (unsigned i = 0; i < 5; i++) docs.push_back(val(3)); std::vector<const void *> nat; for (auto &d : docs) nat.push_back(lib->make(d)); for (auto &d : docs) ev("doc %s", dump(d).c_str());
    const bool crowd = choose(8) == 7; unsigned n = crowd ? 24 + choose(40) : 8 + choose(24), faults = 0, refused = 0; uint64_t path = 0;
    auto verify = [&](size_t i, const char *when) {
        SchemaState &s = ss[i]; where("checking schema %zu %s", i, when);
        for (size_t d = 0; d < docs.size(); d++) {
            Options o; o.collect = choose(2); Outcome r = freshValidate(o, lib, *s.s, nat[d]); bool w = eval(s.g, 0, docs[d]); evaluated();
            if (r.threw() || r.verdict != w) violation("wrong-constraints", fmt("schema %zu %s: document %s gives %s, the operations that succeeded say %s", i, when, dump(docs[d]).c_str(), r.text().c_str(), w ? "valid" : "invalid"));
            if (o.collect && w != r.errors.empty() && w) violation("wrong-constraints", fmt("valid document %s reported errors %s", dump(docs[d]).c_str(), r.errors.c_str())); }
        for (size_t k = 0; k < s.g.size(); k++) {
            const Subschema *p = ptr(s, (int)k); const Node &nd = s.g[k]; std::vector<int> seen, want; size_t cnt = 0; visited = &seen;
            Subschema::ApplyFunction f = [&](const Constraint &c) { if (cnt < nd.cs.size() && typeid(c) != *nd.cs[cnt].type) violation("wrong-constraints", fmt("schema %zu subschema %zu %s: constraint %zu is not of the kind (%s) added there", i, k, when, cnt, kNames[nd.cs[cnt].k])); cnt++; if (auto q = dynamic_cast<const Poly *>(&c)) seen.push_back(q->marker); return true; }; p->apply(f); visited = nullptr;
            for (auto &m : nd.cs) if (m.k == kPoly) want.push_back(m.marker); evaluated();
            if (cnt != nd.cs.size()) violation("wrong-constraints", fmt("schema %zu subschema %zu %s holds %zu constraints, %zu were added", i, k, when, cnt, nd.cs.size()));
            order(s.g, seen, want);
            if (p->getAlwaysInvalid() != nd.invalid || p->hasTitle() != nd.hasTitle || p->hasDescription() != nd.hasDesc || p->hasId() != nd.hasId || (nd.hasTitle && p->getTitle() != nd.title) || (nd.hasDesc && p->getDescription() != nd.desc) || (nd.hasId && p->getId() != nd.id))
                violation("wrong-annotation", fmt("schema %zu subschema %zu %s: identifier, title or description differ from what was set", i, k, when)); }
        size_t cnt = 0; Subschema::ApplyFunction f = [&](const Constraint &) { cnt++; return true; }; s.s->emptySubschema()->apply(f);
        if (cnt || s.s->emptySubschema()->getAlwaysInvalid() || s.s->emptySubschema()->hasId() || s.s->emptySubschema()->hasTitle() || s.s->emptySubschema()->hasDescription()) violation("empty-modified", "the shared empty subschema was modified");
    };
    for (unsigned q = 0; q < n; q++) {
        size_t i = choose((uint32_t)ss.size()); SchemaState &s = ss[i]; uint32_t op = choose(16); path = mix(path, op); where("step %u", q);
        // which subschema an operation is aimed at
        int at = crowd && choose(4) ? 0 : (int)choose((uint32_t)s.g.size()); if (crowd && op < 4 && choose(2)) op = 4 + op; const Subschema *target = ptr(s, at); const char *bad = nullptr; size_t j = choose((uint32_t)ss.size());
        if (op >= 4 && op <= 12) switch (choose(9)) {
            case 0: if (j != i) { bad = "subschema of another schema"; target = ptr(ss[j], (int)choose((uint32_t)ss[j].g.size())); } break;
            case 1: bad = "shared empty subschema"; target = s.s->emptySubschema(); break;
            case 2: if (j != i) { bad = "shared empty subschema of another schema"; target = ss[j].s->emptySubschema(); } break;
            default: break; }
        std::string txt = std::string("text ") + std::to_string(q) + (choose(2) ? std::string(40, 't') : ""); if (choose(6) == 5) txt.clear(); const bool idOp = op == 12 && choose(3);
        // the operation, possibly with failing memory or a failing clone
        M m; std::unique_ptr<Constraint> mine; Constraint *use = nullptr; size_t keptAt = ~(size_t)0;
        if (op >= 4 && op <= 9) {
            if (!bad && choose(5) == 0) for (size_t t = 0; t < kept.size(); t++) if (kept[t].s == i && kept[t].m.minSub() > at) { keptAt = t; m = kept[t].m; use = kept[t].c.get(); break; }
            if (!use) { m = gen(s, at); int pr = (int)choose(4) - 1; heap::LibCall c; mine = object(s, m, lib, pr); use = mine.get(); const Constraint &cc = *use; m.type = &typeid(cc); } }
        heap::Plan pl; heap::PairPlan pp; uint32_t fk = op < 13 ? choose(6) : 5;
        if (fk == 0) { pl.from = choose(6); pl.count = choose(3) ? 1 : ~0ull >> 1; faultPlanned("alloc-failure"); heap::arm(pl); }
        if (fk == 1) { pp.on = true; pp.from = choose(4); pp.count = choose(3) ? 1 : 1000; faultPlanned("memfn-null"); heap::armPair(pp); }
        if (fk == 2 && m.k == kPoly && use) { cloneThrows = true; faultPlanned("clone-throws"); }
        const Subschema *created = nullptr; std::string what;
        Outcome o = guarded([&](Outcome &) {
            heap::LibCall c;
            switch (op) {
            case 0: case 1: case 2: case 3: created = s.s->createSubschema(); break;
            case 4: case 5: case 6: case 7: case 8: s.s->addConstraintToSubschema(*use, target); break;
            case 9: if (at == 0 && !bad) s.s->addConstraint(*use); else s.s->addConstraintToSubschema(*use, target); break;
            case 10: s.s->setSubschemaTitle(target, txt); break;
            case 11: s.s->setSubschemaDescription(target, txt); break;
            case 12: if (idOp) s.s->setSubschemaId(target, txt); else s.s->setAlwaysInvalid(target, q % 3 == 0); break;
            default: break; } });
        uint64_t f1 = fk == 0 ? heap::firedCount() : 0, f2 = fk == 1 ? heap::pairFired() : 0; heap::disarm(); heap::armPair({});
        if (f1) { faultFired("alloc-failure", (unsigned)f1); faults++; } if (f2) { faultFired("memfn-null", (unsigned)f2); faults++; } if (cloneThrows) { faultFired("clone-throws"); faults++; }
        bool threwClone = cloneThrows; cloneThrows = false;
        if (bad) { refused++; evaluated(); faultFired("foreign-subschema"); if (!o.threw()) violation("foreign-accepted", fmt("operation %u on a %s succeeded", op, bad)); }
        else if (threwClone) { if (o.kind != Outcome::Sim) violation("clone-failure-swallowed", "a constraint whose copy failed was accepted: " + o.text()); }
        else if (o.threw() && !f1 && !f2) violation("refused", fmt("operation %u failed without reason: %s", op, o.text().c_str()));
        bool done = !o.threw() && !bad;
        ev("step %u: schema %zu op %u on %d%s%s%s%s -> %s", q, i, op, at, bad ? " aimed at " : "", bad ? bad : "", use ? " " : "", use ? text(m).c_str() : "", o.threw() ? "exception" : "ok");
        if (done) { Node *nd = &s.g[(size_t)at];
            if (op <= 3) { s.g.emplace_back(); s.p.push_back(created); if (created == s.s->root() || created == s.s->emptySubschema()) violation("wrong-subschema", "createSubschema returned an existing subschema"); for (size_t k = 1; k + 1 < s.p.size(); k++) if (s.p[k] == created) violation("wrong-subschema", "createSubschema returned an existing subschema"); }
            else if (op <= 9) nd->cs.push_back(m);
            else if (op == 10) { nd->hasTitle = true; nd->title = txt; } else if (op == 11) { nd->hasDesc = true; nd->desc = txt; }
            else if (op == 12) { if (idOp) { nd->hasId = true; nd->id = txt; } else nd->invalid = q % 3 == 0; } }
        // the caller's object afterwards
        if (mine) switch (choose(5)) { case 0: break; case 1: case 2: mutate(*mine, m, s.s->emptySubschema(), lib); break; default: kept.push_back({i, m, std::move(mine)}); }
        else if (keptAt != ~(size_t)0 && choose(2)) { mutate(*kept[keptAt].c, m, s.s->emptySubschema(), lib); kept.erase(kept.begin() + (long)keptAt); }
        { heap::LibCall c; mine.reset(); }
        switch (op) {
        case 13: verify(i, "during the history"); break;
        case 14: if (choose(2)) { std::unique_ptr<Schema> t; if (choose(2)) t.reset(new Schema(std::move(*s.s))); else { t.reset(new Schema); *t = std::move(*s.s); } ev("schema %zu moved", i); s.s = std::move(t); kept.erase(std::remove_if(kept.begin(), kept.end(), [&](const Keep &k) { return k.s == i; }), kept.end()); } break;
        case 15: if (!kept.empty()) { ev("a constraint object of the caller is destroyed"); kept.erase(kept.begin() + (long)choose((uint32_t)kept.size())); } break;
        default: if ((o.threw() && choose(2)) || choose(6) == 0) verify(i, o.threw() ? "after a failed operation" : "after an operation"); }
    }
    if (choose(2)) kept.clear();
    for (size_t i = 0; i < ss.size(); i++) verify(i, "at the end");
    // what reported success, done again without failures, gives the same errors
    for (size_t i = 0; i < ss.size(); i++) {
        SchemaState t; t.s.reset(new Schema); for (size_t k = 0; k < ss[i].g.size(); k++) t.p.push_back(k ? t.s->createSubschema() : nullptr); t.g = ss[i].g;
        for (size_t k = 0; k < t.g.size(); k++) { t.s->setAlwaysInvalid(ptr(t, (int)k), t.g[k].invalid); for (auto &m : t.g[k].cs) { auto c = object(t, m, lib, -1); t.s->addConstraintToSubschema(*c, ptr(t, (int)k)); } }
        Options o; for (size_t d = 0; d < docs.size(); d++) { Outcome a = freshValidate(o, lib, *ss[i].s, nat[d]), b = freshValidate(o, lib, *t.s, nat[d]); evaluated(); if (!a.same(b)) violation("wrong-constraints", fmt("schema %zu: document %s gives %s, repeating the successful operations gives %s", i, dump(docs[d]).c_str(), a.text().c_str(), b.text().c_str())); }
    }
    if (faults || refused) { nontrivial(); sig(path); }
    kept.clear(); { heap::LibCall c; for (auto &s : ss) s.s.reset(); }
    for (int k = 0; k < heap::kPairs; k++) if (heap::pairLive(k)) violation("memfn-leak", fmt("%zu blocks of memory function pair %d outlive schemas and constraints", heap::pairLive(k), k));
    for (auto d : nat) lib->destroy(d);
    checkLeaks("building schemas by hand"); steps(n);
}
Registrar r17({"C17", runC17, "two or three schemas assembled by 8-31 operations (create, add one of 29 kinds of constraint, annotate, move) with failing allocations, failing copies and foreign targets; the caller's constraint objects changed or destroyed afterwards",
    "schema, subschemas, all constraint classes, frozen values, validator", "operator new/delete and memory functions (fault seams), one custom constraint"});
}
} // namespace sim
