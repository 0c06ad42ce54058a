#include "gen.hpp"
namespace sim {

static const char *kNames[] = {"a", "b", "c", "foo", "bar", "x-1", "a/b", "m~n", "0", ""};
static const char *kStrs[] = {"", "a", "ab", "abc", "b", "foo", "2020-02-29", "2021-02-29", "12:00:00Z", "23:59:60Z",
    "12:00:00", "2020-01-01T12:00:00Z", "2020-13-01T12:00:00Z", "2016-12-31T23:59:60Z", "127.0.0.1", "1.2.3.256", "\xc3\xa9t\xc3\xa9", "12", "1,234", "3.5", "true", "x-1", "\xf0\x9f\x98\x80z",
    "Grandfather clocks are long strings that do not fit into a small buffer", "AB", "caf\xc3\xa9-2020-01-01-abc"};
static const char *kPats[] = {"^a", "b$", "ab", "^abc$", "x-", "^foo", "0"};
static const char *kStdPats[] = {"^[a-c]+$", "[0-9]{2,}", "^(foo|bar)?$", "\\d+", "^.*$", "^x-[0-9]$", "[^a-z]", "(a)(b)?"};
static const char *kBadPats[] = {"(", "[a", "a{2,1}", "*a"};
static const char *kFormats[] = {"date", "time", "date-time", "ipv4", "email", "uri", "a-format-that-nobody-has-ever-specified"};
static const char *kTypes[] = {"string", "integer", "number", "object", "array", "boolean", "null"};

Gen::Gen(const GenCfg &c) : cfg(c) {
    uint32_t n = 3 + choose(4);
    for (uint32_t i = 0; i < n; i++) names.push_back(kNames[(i + choose(3)) % 10]);
    static const char *words[] = {"$ref", "id", "$id", "items", "properties", "enum", "definitions", "additional", "additionalProperties", "type", "required", "default", "length", "__proto__", "A", "Foo", "1", "00", "-1", "\xc3\xa9"};
    if (choose(4) == 3) for (uint32_t k = 1 + choose(2); k--;) names.push_back(words[choose(20)]);
    if (cfg.refs) { uint32_t k = choose(4); for (uint32_t i = 0; i < k; i++) defs.push_back(i == 2 ? "d/2" : "d" + std::to_string(i)); }
}
std::string Gen::str() { if (!texts.empty() && chance(200)) return pick(texts); return kStrs[choose(26)]; }
int64_t Gen::num() {
    static const int64_t k[] = {0, 1, 2, 3, 4, 5, -1, -7, 10, 12, 100, 1234, -2147483648LL, 9007199254740993LL};
    return k[choose(14)];
}
std::string Gen::pattern() {
    if (cfg.badPatterns && chance(150)) return kBadPats[choose(4)];
    static int family = -1;      // one family of similar patterns in all schemas of a run
    if (chance(family < 0 ? 120 : 350)) {      // patterns that are almost the same
        static const std::string l(64, 'l');
        static const std::vector<std::string> pats[] = {{"ab", "ab ", "^ab"}, {"Ab", "AB", "ab", "aB"}, {"^" + l + "0", "^" + l + "1", "^" + l + "2"}, {l + "a$", l + "b$"}, {"^ab", "^a$", "^a", "a"}, {"b", "b$", "^b$"}};
        static const std::vector<std::string> txts[] = {{"ab", "ab ", "xab"}, {"xAb", "AB", "ab", "aB"}, {l + "0", l + "1", l + "2"}, {l + "a", l + "b"}, {"a", "ab", "ba"}, {"b", "ab", "ba"}};
        if (family < 0) family = (int)choose(6);
        if (texts.empty()) { texts = txts[family]; names.push_back(pick(texts)); names.push_back(pick(texts)); }
        return pats[family][choose((uint32_t)pats[family].size())]; }
    if (cfg.simplePatterns || choose(2) == 0) return kPats[choose(7)];
    return kStdPats[choose(8)];
}
J Gen::scalar() {
    switch (choose(8)) {
    case 0: case 1: return J::integer(num());
    case 2: case 3: return J::str(str());
    case 4: return J::dbl((double)((int64_t)choose(81) - 40) / 8.0);
    case 5: return J::boolean(choose(2));
    case 6: return J::null();
    default: return J::str(str());
    }
}
J Gen::value(int depth) {
    if (!values.empty() && chance(350)) return pick(values);
    uint32_t k = depth > 0 ? choose(6) : choose(3);
    if (k <= 2) return scalar();
    if (k == 3 || k == 5) {
        J o = J::obj(); uint32_t n = choose(cfg.maxMembers + 1);
        for (uint32_t i = 0; i < n; i++) o.set(pick(names), value(depth - 1));
        return o;
    }
    J a = J::arr(); uint32_t n = choose(cfg.maxMembers + 1);
    for (uint32_t i = 0; i < n; i++) a.push(value(depth - 1));
    return a;
}
J Gen::doc() { return value(3); }

void Gen::keyword(J &s, int depth) {
    auto nn = [&] { return J::integer((int64_t)choose(5)); };
    auto subs = [&] { J a = J::arr(); uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; i++) a.push(sub(depth - 1)); return a; };
    switch (choose(30)) {
    case 0: case 1: {
        if (choose(4) == 0) { J a = J::arr(); uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; i++) { J t = J::str(kTypes[choose(7)]); bool dup = false; for (auto &x : a.a) if (x.s == t.s) dup = true; if (!dup) a.push(t); }
            if (cfg.draft == 3 && depth > 0 && choose(2)) { J so = sub(depth - 1); if (so.t == J::Obj) a.push(so); }
            s.set("type", a); }
        else s.set("type", J::str(kTypes[choose(7)]));
        break; }
    case 2: case 3: case 4: case 5: {
        J o = J::obj(); uint32_t n = 1 + choose(cfg.maxMembers);
        for (uint32_t i = 0; i < n; i++) { J v = sub(depth - 1); if (cfg.draft == 3 && v.t == J::Obj && !v.get("$ref") && chance(250)) v.set("required", J::boolean(choose(2))); o.set(pick(names), v); }
        s.set("properties", o); break; }
    case 6: if (cfg.draft != 3) { J a = J::arr(); uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; i++) { J t = J::str(pick(names)); bool dup = false; for (auto &x : a.a) if (x.s == t.s) dup = true; if (!dup) a.push(t); } s.set("required", a); } break;
    case 7: if (cfg.draft != 3) { s.set("allOf", subs()); } else s.set("extends", choose(2) ? subs() : [&] { J x = sub(depth - 1); return x; }()); break;
    case 8: if (cfg.draft != 3) s.set("anyOf", subs()); break;
    case 9: if (cfg.draft != 3) s.set("oneOf", subs()); break;
    case 10: if (cfg.draft != 3) s.set("not", sub(depth - 1)); break;
    case 11: { J a = J::arr(); uint32_t n = 1 + choose(4); for (uint32_t i = 0; i < n; i++) { J v = value(1); values.push_back(v); a.push(v); } s.set("enum", a); break; }
    case 12: if (cfg.draft == 7) { J v = value(2); values.push_back(v); s.set("const", v); } break;
    case 13: s.set("minimum", J::integer(num() % 1000)); if (cfg.draft == 7 && choose(3) == 0) { s.set("exclusiveMinimum", J::dbl((double)((int64_t)choose(40) - 20) / 4)); } else if (cfg.draft != 7 && choose(2)) s.set("exclusiveMinimum", J::boolean(choose(2))); break;
    case 14: s.set("maximum", choose(2) ? J::integer(num() % 1000) : J::dbl((double)choose(100) / 8.0)); if (cfg.draft != 7 && choose(2)) s.set("exclusiveMaximum", J::boolean(choose(2))); else if (cfg.draft == 7 && choose(3) == 0) s.set("exclusiveMaximum", J::integer((int64_t)choose(20))); break;
    case 15: s.set("minLength", nn()); break;
    case 16: s.set("maxLength", nn()); break;
    case 17: s.set("minItems", nn()); break;
    case 18: s.set("maxItems", nn()); break;
    case 19: if (cfg.draft != 3) { if (choose(2)) s.set("minProperties", nn()); else s.set("maxProperties", nn()); } break;
    case 20: s.set(cfg.draft == 3 ? "divisibleBy" : "multipleOf", choose(2) ? J::integer(1 + (int64_t)choose(5)) : J::dbl(0.25 * (1 + choose(8)))); break;
    case 21: if (cfg.patterns) s.set("pattern", J::str(pattern())); break;
    case 22: if (cfg.formats) { s.set("format", J::str(kFormats[choose(7)])); if (choose(2)) s.set("type", J::str("string")); } break;
    case 23: {
        if (choose(2)) s.set("items", sub(depth - 1));
        else { J a = J::arr(); uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; i++) a.push(sub(depth - 1)); s.set("items", a);
            if (choose(2)) s.set("additionalItems", choose(2) ? J::boolean(choose(2)) : [&] { J x = sub(depth - 1); return x.t == J::Obj ? x : J::obj(); }()); }
        break; }
    case 24: s.set("uniqueItems", J::boolean(choose(4) != 0)); break;
    case 25: { s.set("additionalProperties", choose(2) ? J::boolean(choose(2)) : [&] { J x = sub(depth - 1); return x.t == J::Obj ? x : J::obj(); }()); break; }
    case 26: if (cfg.patterns) { J o = J::obj(); uint32_t n = 1 + choose(2); for (uint32_t i = 0; i < n; i++) o.set(pattern(), sub(depth - 1)); s.set("patternProperties", o); } break;
    case 27: {
        J o = J::obj(); uint32_t n = 1 + choose(2);
        for (uint32_t i = 0; i < n; i++) {
            if (choose(2)) { J a = J::arr(); a.push(J::str(pick(names))); if (choose(2)) a.push(J::str(pick(names))); o.set(pick(names), a); }
            else { J x = sub(depth - 1); if (x.t == J::Obj) o.set(pick(names), x); } }
        s.set("dependencies", o); break; }
    case 28: if (cfg.draft == 7) {
        switch (choose(3)) {
        case 0: s.set("if", sub(depth - 1)); if (choose(4)) s.set("then", sub(depth - 1)); if (choose(3)) s.set("else", sub(depth - 1)); break;
        case 1: s.set("contains", sub(depth - 1)); break;
        default: s.set("propertyNames", sub(depth - 1)); break; } }
        break;
    case 29:
        if (cfg.custom) { s.set("x-custom", J::integer((int64_t)choose(4))); break; }
        s.set("title", J::str(str())); if (choose(2)) s.set("description", J::str(str())); break;
    }
}
J Gen::sub(int depth) {
    if (cfg.draft == 7 && cfg.boolSchemas && chance(60)) return J::boolean(choose(3) != 0);
    if (!defs.empty() && chance(170)) { J r = J::obj(); std::string d = pick(defs), e; for (char c : d) e += c == '/' ? std::string("~1") : c == '~' ? std::string("~0") : std::string(1, c); r.set("$ref", J::str("#/definitions/" + e)); return r; }
    J s = J::obj();
    uint32_t n = depth > 0 ? choose(4) + (choose(3) == 0) : 1 + choose(2);
    for (uint32_t i = 0; i < n; i++) {
        if (depth > 0) keyword(s, depth);
        else {
            switch (choose(9)) {
            case 0: s.set("type", J::str(kTypes[choose(7)])); break;
            case 1: { J a = J::arr(); uint32_t m = 1 + choose(3); for (uint32_t k = 0; k < m; k++) { J v = scalar(); values.push_back(v); a.push(v); } s.set("enum", a); break; }
            case 2: s.set("minimum", J::integer((int64_t)choose(8) - 2)); break;
            case 3: s.set("maximum", J::integer((int64_t)choose(12))); break;
            case 4: s.set("minLength", J::integer((int64_t)choose(4))); break;
            case 5: s.set("maxLength", J::integer((int64_t)choose(5))); break;
            case 6: if (cfg.patterns) s.set("pattern", J::str(pattern())); break;
            case 7: if (cfg.formats) s.set("format", J::str(kFormats[choose(4)])); break;
            case 8: if (cfg.custom) s.set("x-custom", J::integer((int64_t)choose(4))); else if (cfg.draft == 7) { J v = scalar(); values.push_back(v); s.set("const", v); } break;
            } } }
    return s;
}
J Gen::schema() {
    J s = J::obj();
    if (cfg.ids && chance(120)) s.set(cfg.draft == 7 ? "$id" : "id", J::str("http://sim/root.json"));
    uint32_t n = 2 + choose(4);
    for (uint32_t i = 0; i < n; i++) keyword(s, cfg.depth);
    if (cfg.draft == 3) s.erase("required");
    if (!defs.empty()) {
        J d = J::obj(); auto keep = defs;
        for (size_t i = 0; i < keep.size(); i++) {
            // definitions only refer to later ones: no reference-only cycles here
            defs.assign(keep.begin() + i + 1, keep.end());
            J x = sub(cfg.depth - 1); d.set(keep[i], x);
        }
        defs = keep; s.set("definitions", d);
    }
    return s;
}

static const J *deref(const J &root, const J *s) {
    for (int k = 0; k < 8; k++) {
        const J *r = s->get("$ref"); if (!r) return s;
        std::string p = r->s; size_t q = p.rfind('/'); if (q == std::string::npos) return s;
        std::string nm = p.substr(q + 1), un; for (size_t i = 0; i < nm.size(); i++) { if (nm[i] == '~' && i + 1 < nm.size()) { un += nm[++i] == '1' ? '/' : '~'; } else un += nm[i]; }
        const J *d = root.get("definitions"); if (!d) return s; const J *t = d->get(un); if (!t) return s; s = t;
    }
    return s;
}
J Gen::docFor(const J &schema, const J &root, int depth) {
    const J &s = *deref(root, &schema);
    if (s.t != J::Obj || depth <= 0 || chance(120)) return value(depth > 0 ? 1 : 0);
    if (const J *c = s.get("const")) if (chance(800)) return *c;
    if (const J *e = s.get("enum")) if (!e->a.empty() && chance(800)) return e->a[choose((uint32_t)e->a.size())];
    for (const char *k : {"allOf", "anyOf", "oneOf"}) if (const J *a = s.get(k)) if (a->t == J::Arr && !a->a.empty() && chance(300)) return docFor(a->a[choose((uint32_t)a->a.size())], root, depth - 1);
    const J *ty = s.get("type"); std::string t = ty && ty->t == J::Str ? ty->s : ty && ty->t == J::Arr && !ty->a.empty() && ty->a[0].t == J::Str ? ty->a[choose((uint32_t)ty->a.size())].s : "";
    bool objish = s.get("properties") || s.get("required") || s.get("additionalProperties") || s.get("patternProperties") || s.get("dependencies") || s.get("minProperties") || s.get("maxProperties") || s.get("propertyNames");
    bool arrish = s.get("items") || s.get("minItems") || s.get("maxItems") || s.get("uniqueItems") || s.get("contains");
    if (t.empty()) { if (objish && arrish) t = choose(2) ? "object" : "array"; else if (objish) t = "object"; else if (arrish) t = "array";
        else if (s.get("pattern") || s.get("format") || s.get("minLength") || s.get("maxLength")) t = "string";
        else if (s.get("minimum") || s.get("maximum") || s.get("multipleOf") || s.get("divisibleBy")) t = "number"; }
    if (t == "object") {
        J o = J::obj();
        if (const J *p = s.get("properties")) for (auto &m : p->o) if (chance(750)) o.set(m.first, docFor(m.second, root, depth - 1));
        if (const J *r = s.get("required")) if (r->t == J::Arr) for (auto &m : r->a) if (chance(850) && !o.get(m.s)) o.set(m.s, value(1));
        if (const J *p = s.get("patternProperties")) for (auto &m : p->o) if (chance(700)) {
            const J &sc = m.second; const char *cand[] = {"ab", "abc", "x-1", "foo", "b", "0", "12"}; o.set(cand[choose(7)], docFor(sc, root, depth - 1)); }
        if (choose(3) == 0) { const J *ap = s.get("additionalProperties"); o.set(pick(names), ap && ap->t == J::Obj ? docFor(*ap, root, depth - 1) : value(1)); }
        return o;
    }
    if (t == "array") {
        J a = J::arr(); uint32_t n = choose(5); const J *it = s.get("items");
        for (uint32_t i = 0; i < n; i++) {
            if (it && it->t == J::Arr && i < it->a.size()) a.push(docFor(it->a[i], root, depth - 1));
            else if (it && it->t == J::Obj) a.push(docFor(*it, root, depth - 1));
            else if (const J *c = s.get("contains")) a.push(docFor(*c, root, depth - 1));
            else a.push(value(1));
        }
        return a;
    }
    if (t == "string") return J::str(str());
    if (t == "integer") return J::integer(num());
    if (t == "number") return choose(2) ? J::integer((int64_t)choose(12)) : J::dbl((double)choose(80) / 8);
    if (t == "boolean") return J::boolean(choose(2));
    if (t == "null") return J::null();
    return value(2);
}

J toWeak(const J &j) {
    switch (j.t) {
    case J::Arr: { J a = J::arr(); for (auto &v : j.a) a.push(toWeak(v)); return a; }
    case J::Obj: { J o = J::obj(); for (auto &p : j.o) o.set(p.first, toWeak(p.second)); return o; }
    case J::Str: return j;
    case J::Null: return J::str("");
    default: return J::str(dump(j));
    }
}
} // namespace sim
