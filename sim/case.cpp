#include "case.hpp"
#include "big.hpp"
namespace sim {
// the custom keyword at the root and in some of the subschemas
static void sprinkle(J &s, int depth, bool pat) {
    if (s.t != J::Obj || s.get("$ref")) return;
    if (depth == 0 || choose(3) == 0) s.set("x-custom", J::integer((int64_t)choose(3)));
    if (pat && choose(2)) s.set("pattern", J::str(choose(2) ? "a" : "b$")); if (pat && choose(4) == 0) { J o = J::obj(); o.set(choose(2) ? "^a" : "o", J::obj()); s.set("patternProperties", o); }
    for (const char *k : {"properties", "patternProperties", "definitions"}) if (J *p = s.get(k)) for (auto &m : p->o) sprinkle(m.second, depth + 1, pat);
    for (const char *k : {"allOf", "anyOf", "oneOf"}) if (J *p = s.get(k)) for (auto &m : p->a) sprinkle(m, depth + 1, pat);
    for (const char *k : {"items", "not", "additionalProperties"}) if (J *p = s.get(k)) sprinkle(*p, depth + 1, pat);
}
// dates with a meaning somewhere: days on which clocks are put forward or back in some zone, ends of months, leap days
static std::string someDate() {
    int y = choose(2) ? 1970 + (int)choose(68) : std::vector<int>{1, 100, 1582, 1752, 1900, 1969, 1999, 2000, 2016, 2024, 2026, 2038, 2100, 9999}[choose(14)];
    static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int m, d;
    if (choose(5) == 0) return std::vector<const char *>{"2011-12-30", "1994-12-31", "1995-01-01", "1993-08-21", "1969-12-31", "1970-01-01", "2038-01-19"}[choose(7)];   // days some place never had
    if (choose(2)) {       // n-th Sunday of a month in which rules put the change
        static const int ms[] = {3, 10, 11, 2, 9, 4, 5}; m = ms[choose(7)];
        static const int t[] = {0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4}; int yy = m < 3 ? y - 1 : y, first = (yy + yy / 4 - yy / 100 + yy / 400 + t[m - 1] + 1) % 7;
        d = 1 + (7 - first) % 7 + 7 * (int)choose(4); if (choose(3) == 0 && d + 7 <= len[m - 1]) d += 7;
    } else { m = 1 + (int)choose(12); d = choose(3) ? 1 + (int)choose(31) : len[m - 1] + (int)choose(2); }
    return fmt("%04d-%02d-%02d", y, m, d);
}
static std::string someTime() {
    std::string s = choose(3) ? std::vector<const char *>{"00:00:00", "00:30:00", "01:00:00", "01:30:00", "02:00:00", "02:30:00", "03:00:00", "23:59:59", "23:30:00", "23:59:60"}[choose(10)] : fmt("%02u:%02u:%02u", choose(25), choose(61), choose(62));
    if (choose(4) == 0) s += std::vector<const char *>{".5", ".000", ",5", ".123456789"}[choose(4)];
    return s + std::vector<const char *>{"Z", "z", "+01:00", "-05:00", "+14:00", "-12:00", "+05:45", "", "+1:00", "-03:00"}[choose(10)];
}
static std::string someFormatText(int k) {
    return k == 0 ? someDate() : k == 1 ? someTime() : k == 2 ? someDate() + (choose(8) ? "T" : " ") + someTime() : fmt("%u.%u.%u.%u", choose(258), choose(258), choose(10), choose(258));
}
// properties with every format whose check keeps process-wide state, and values for them
static void addFormats(J &root, std::vector<J> &docs, int draft) {
    if (root.get("$ref") || choose(4) == 0) return;
    static const char *f[] = {"date", "time", "date-time", "ipv4", "ip-address"};
    static const char *v[] = {"2020-02-29", "12:00:00Z", "2016-12-31T23:59:60Z", "127.0.0.1", "2021-02-30", "25:00:00", "no", "1.2.3.256", "2020-01-01t00:00:00+01:00", "12:00:00"};
    J props = root.get("properties") ? *root.get("properties") : J::obj();
    if (props.t != J::Obj) return;
    for (int k = 0; k < 5; k++) if (choose(2)) { J s = J::obj(); s.set("type", J::str("string")); s.set("format", J::str(f[draft == 3 && k == 3 ? 4 : k])); props.set(f[k], s); }
    root.set("properties", props);
    for (auto &d : docs) { if (d.t != J::Obj && choose(2)) d = J::obj(); if (d.t == J::Obj) for (int k = 0; k < 5; k++) if (choose(3)) d.set(f[k], J::str(choose(2) ? someFormatText(k) : choose(2) ? v[k == 4 ? 3 : k] : v[choose(10)])); }
}
// values and constraints whose meaning a locale could change
static void addEnvTexts(J &root, std::vector<J> &docs, int draft, Server &srv) {
    if (root.get("$ref")) return;
    static const char *v[] = {"1,234", "1.234", "1'234", "3,5", "3.5", "12,34", "1 234", " 7", "7 ", "+5", "-5", "1234", "0x10", "010", "1e3", "1,5e3", "12,34,567", "1.234.567", "1.5", "0.1", "1,000", ".5", "5.", "nan", "inf", "-0", "9223372036854775807", "9223372036854775808",
        "abc", "ABC", "\xc3\xa9", "caf\xc3\xa9", "\xe9", "STRASSE", "I", "i", "a b", "a,b", "-", "2020-02-29", "true", "wahr", "1-2", "a\tb", "\xc2\xa0", "urn:ISBN:0451450523"};
    static const char *pat[] = {"^\\w+$", "^[[:alpha:]]+$", "^[[:upper:]]+$", "^\\d,\\d", "\\s", "^[a-z]+$", "^\\S+$", "[[:punct:]]", "^[[:print:]]*$", "\\bab", "^[A-Za-z0-9]+$", "[[:space:]]", "^\\d+$", "\\D", "^[^[:digit:]]+$", "\\W"};
    auto con = [&] {
        J s = J::obj(); for (unsigned n = 1 + choose(2); n--;) switch (choose(14)) {
        case 0: s.set("type", J::str("integer")); break; case 1: s.set("type", J::str("number")); break; case 2: s.set("minimum", choose(2) ? J::integer(1000) : J::dbl(3.25)); break;
        case 3: s.set("maximum", choose(2) ? J::dbl(1.5) : J::integer(12)); break; case 4: s.set(draft == 3 ? "divisibleBy" : "multipleOf", choose(2) ? J::dbl(0.5) : J::integer(3)); break;
        case 5: s.set("enum", J::arr({J::integer(1234), J::dbl(3.5), J::integer(5), J::str("ABC")})); break; case 6: if (draft == 7) s.set("const", choose(2) ? J::integer(1234) : J::dbl(1.5)); break;
        case 7: s.set("minLength", J::integer(1 + (int)choose(9))); break; case 8: s.set("maxLength", J::integer((int)choose(9))); break;
        case 9: case 10: case 11: s.set("pattern", J::str(pat[choose(16)])); break;
        case 12: if (draft == 7) { s.set("exclusiveMinimum", J::dbl(0.5)); s.set("exclusiveMaximum", J::dbl(1234.5)); } else s.set("uniqueItems", J::boolean(true)); break;
        default: s.set("format", J::str(std::vector<const char *>{"date", "time", "date-time", "ipv4", "uri", "email"}[choose(6)])); }
        return s; };
    auto val = [&](auto &self, int d) -> J { uint32_t k = choose(12); if (k < 8) return J::str(v[choose(46)]); if (k == 8) return J::dbl(std::vector<double>{3.5, 1234.5, 0.1, 1e6, -2.25}[choose(5)]); if (k == 9) return J::integer(std::vector<int>{1234, 5, 12, 3, 1000000}[choose(5)]); if (k == 10 && d) { J a = J::arr(); for (unsigned n = choose(4); n--;) a.push(self(self, d - 1)); return a; } return J::boolean(choose(2)); };
    J props = root.get("properties") ? *root.get("properties") : J::obj(); if (props.t != J::Obj) return;
    unsigned n = 1 + choose(4);
    for (unsigned i = 0; i < n; i++) props.set("e" + std::to_string(i), con());
    if (choose(5) == 4) {   // documents whose names hold letters of some locale only
        static const char *u[] = {"\xf5://h/x.json", "d\xe9t://h/x.json", "\xc3\xa9t://h/x.json", "HTTP://sim/x.json", "urn:\xe9:x", "\xe9.json", "I.json", "http://sim/\xc4\xb0.json"}; std::string r = u[choose(8)]; J ref = J::obj(); ref.set("$ref", J::str(r));
        const char *idk = draft == 7 ? "$id" : "id"; if (!root.get("id") && !root.get("$id") && choose(3)) root.set(idk, J::str("http://sim/base/env.json"));
        props.set("eref", ref); J d = con(); srv.docs.emplace_back(r, d); if (r.find(':') == std::string::npos) srv.docs.emplace_back("http://sim/base/" + r, d); for (auto &x : docs) if (x.t == J::Obj && choose(3)) x.set("eref", val(val, 1)); }
    root.set("properties", props);
    if (choose(4) == 0) { J pp = root.get("patternProperties") ? *root.get("patternProperties") : J::obj(); pp.set(pat[choose(16)], con()); root.set("patternProperties", pp); }
    for (auto &d : docs) { if (d.t != J::Obj && choose(3)) d = J::obj(); if (d.t == J::Obj) { for (unsigned i = 0; i < n; i++) if (choose(4)) d.set("e" + std::to_string(i), val(val, 2)); if (choose(3) == 0) d.set(v[choose(46)], val(val, 1)); } }
}
Case::Case(const Lib *l, const Want &w) : lib(l) {
    srv.lib = lib; bool big = w.big && !w.forceCustom && choose(w.big) == 0;
    if (big && choose(6)) {
        uint32_t d = choose(8); draft = d < 5 ? 7 : d < 7 ? 4 : 3; bigCase(root, docs, draft, w.docs, w.scale); opt = pickOptions(lib); opt.simRegex = w.simRegex && opt.simRegex;
        if (w.custom && choose(4) == 0) { custom = true; root.set("x-custom", J::integer(0)); }
    } else if (w.graphs && (big || choose(3) == 0)) {
        graph::World g; graph::Cfg c; uint32_t d = choose(8); c.draft = d < 5 ? 7 : d < 7 ? 4 : 3; c.docs = choose(3); c.custom = custom = w.forceCustom || (w.custom && choose(3) == 0); c.rootRef = chance(200); c.ids = choose(2); c.deep = choose(2); if (big) c.tower = 2 + choose(w.scale);
        graph::generate(g, c); graph::Facts f = g.analyse(); draft = c.draft; opt.collect = choose(3) != 0;
        if (f.rootLocalCycle || g.inPlaceCycle()) { root = J::obj(); root.set("enum", J::arr({J::integer(1)})); }
        else { root = g.docs[0].j; for (auto &s : g.served) srv.docs.emplace_back(s.first, s.second->j); }
        for (unsigned i = 0; i < w.docs; i++) { J x = g.rootInstance(); if (g.evalRoot(x) != graph::World::Diverges) docs.push_back(x); }
        // without a verdict from the model an instance might recurse for ever: keep the schema small then
        if (docs.empty()) docs.push_back(J::integer(1)), f.mayFail = true;
        if (f.mustFail || f.mayFail) { root = J::obj(); root.set("enum", J::arr({J::integer(1)})); }
        if (w.simRegex) opt.simRegex = choose(3) == 0;
        opt.strong = lib->strong();
    } else {
        GenCfg cfg = pickCfg(w.custom); cfg.patterns = cfg.patterns && w.patterns; cfg.badPatterns = w.badPatterns && choose(3); if (w.forceCustom) cfg.custom = true; opt = pickOptions(lib); opt.simRegex = w.simRegex && opt.simRegex; custom = cfg.custom; draft = cfg.draft;
        Gen g(cfg); root = g.schema(); if (w.forceCustom) sprinkle(root, 0, w.forcePatterns); spread(root, srv, g);
        for (unsigned i = 0; i < w.docs; i++) docs.push_back(choose(3) ? g.docFor(root, root, 4) : g.doc());
    }
    if (root.t == J::Obj && !root.get("$ref") && choose(5) == 4) { static const char *meta[] = {"http://json-schema.org/draft-07/schema#", "http://json-schema.org/draft-04/schema#", "http://json-schema.org/draft-03/schema#", "http://json-schema.org/schema#", "http://sim/meta.json"};
        J m = J::str(meta[choose(5)]); if (choose(2)) root.set("$schema", m); else root.o.insert(root.o.begin(), std::make_pair(std::string("$schema"), m)); }
    if (w.allFormats) addFormats(root, docs, draft);
    if (w.envTexts) addEnvTexts(root, docs, draft, srv);
    src = lib->make(root); for (auto &d : docs) nat.push_back(lib->make(d));
    ev("lib=%s draft=%d schema=%s", lib->name(), draft, dump(root).c_str());
    for (auto &d : srv.docs) ev("remote %s = %s", d.first.c_str(), dump(d.second).c_str());
    for (auto &d : docs) ev("doc %s", dump(d).c_str());
    ev("options strong=%d strict=%d collect=%d simregex=%d", opt.strong, opt.strict, opt.collect, opt.simRegex);
}
Case::~Case() { if (src) lib->destroy(src); for (auto d : nat) lib->destroy(d); }
std::unique_ptr<valijson::SchemaParser> Case::parser() const {
    heap::LibCall c; auto p = std::unique_ptr<valijson::SchemaParser>(new valijson::SchemaParser(versionOf(draft)));
    if (custom) p->addConstraintBuilder("x-custom", new CustomBuilder); return p;
}
Outcome Case::build(valijson::SchemaParser &p, valijson::Schema &s, const void *from) {
    return guarded([&](Outcome &) { heap::LibCall c; lib->populate(p, from ? from : src, s, &srv.f, &srv.g); });
}
void sameAll(const char *cls, const Case &c, const std::vector<Outcome> &want, const valijson::Schema &s, const char *when) {
    for (size_t i = 0; i < want.size(); i++) { where("validating %s", when); Outcome o = c.check(s, i); evaluated();
        if (!o.same(want[i])) violation(cls, fmt("%s: document %s gives %s, expected %s", when, dump(c.docs[i]).c_str(), o.text().c_str(), want[i].text().c_str())); }
}
}
