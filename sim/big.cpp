// Cases that are large in one dimension: many patterns, many members, deep nesting, long texts.
#include "big.hpp"
namespace sim {
namespace {
J one(const char *k, const J &v) { J o = J::obj(); o.set(k, v); return o; }
std::string num(uint32_t i) { return std::to_string(i); }
J ty(const char *t) { return one("type", J::str(t)); }
J small() { switch (choose(4)) { case 0: return ty("integer"); case 1: return ty("string"); case 2: { J s = ty("integer"); s.set("minimum", J::integer(3)); return s; } default: return one("enum", J::arr({J::integer(1), J::integer(4), J::str("a")})); } }
J val() { return choose(4) ? J::integer((int64_t)choose(8)) : choose(2) ? J::str("a") : J::boolean(true); }
}
void bigCase(J &root, std::vector<J> &docs, int draft, unsigned nd, unsigned scale) {
    root = J::obj(); docs.clear(); auto size = [&](uint32_t m) { uint32_t k = std::max(2u, m * scale / 100); return 2 + (choose(3) ? chooseLog(k) : choose(k)); };
    switch (choose(5)) {
    case 0: {   // more patterns than any cache has room for, used inside each other
        uint32_t n = size(300); std::vector<std::string> p; for (uint32_t i = 0; i < n; i++) p.push_back((choose(3) ? "^k" : "k") + num(i) + "$");
        auto text = [&] { return choose(6) ? J::str("k" + num(choose(n + 1))) : J::str(choose(2) ? "" : "other"); };
        uint32_t shape = choose(draft == 3 ? 2 : 3);
        if (shape == 0) { J o = J::obj(); for (uint32_t i = 0; i < n; i++) o.set("a" + num(i), one("pattern", J::str(p[i]))); root.set("properties", o); J q = J::obj(); q.set("^a", one("pattern", J::str("k"))); if (choose(2)) q.set("1", one("pattern", J::str("1"))); root.set("patternProperties", q); }
        else if (shape == 1) { J o = J::obj(); for (uint32_t i = 0; i < n; i++) { J in = J::obj(); in.set("^x" + num(choose(n)), small()); o.set(p[i], choose(3) ? one("patternProperties", in) : small()); } root.set("patternProperties", o); if (choose(2)) root.set("additionalProperties", J::boolean(choose(2))); }
        else { J a = J::arr(); for (uint32_t i = 0; i < n; i++) a.push(one("pattern", J::str(p[i]))); J in = one(choose(4) ? "anyOf" : "oneOf", a); J o = J::obj(); o.set("^m", in); if (choose(2)) o.set("z$", choose(2) ? in : one("pattern", J::str("^k"))); root.set("patternProperties", o); if (choose(2)) root.set("additionalProperties", J::boolean(false)); }
        for (unsigned d = 0; d < nd; d++) { J x = J::obj(); uint32_t m = 1 + choose(8); for (uint32_t i = 0; i < m; i++) {
            if (shape == 0) x.set("a" + num(choose(n)), text()); else if (shape == 1) { J y = J::obj(); y.set("x" + num(choose(n)), val()); x.set("k" + num(choose(n)), choose(3) ? y : val()); } else x.set((choose(8) ? "m" : "o") + num(i) + (choose(3) ? "" : "z"), text()); }
            docs.push_back(x); }
        break; }
    case 1: {   // many members, elements, alternatives
        uint32_t shape = choose(5);
        if (shape == 0) { uint32_t n = size(1500); root.set("items", small()); if (choose(3) == 0) root.set("maxItems", J::integer((int64_t)choose(2 * n))); if (choose(3) == 0 && n < 150) root.set("uniqueItems", J::boolean(true)); if (draft == 7 && choose(3) == 0) root.set("contains", one("enum", J::arr({J::integer(77)})));
            for (unsigned d = 0; d < nd; d++) { J a = J::arr(); uint32_t m = n - choose(2), odd = choose(2 * m), base = choose(3); J same = val(); for (uint32_t i = 0; i < m; i++) a.push(i == odd ? J::integer(77) : base == 0 ? J::integer((int64_t)i) : base == 1 ? J::str("s" + num(i)) : same); docs.push_back(a); } }
        else if (shape == 1) { uint32_t n = size(400); J pr = J::obj(), rq = J::arr(); for (uint32_t i = 0; i < n; i++) { pr.set("p" + num(i), small()); if (choose(2)) rq.push(J::str("p" + num(i))); } root.set("properties", pr); if (draft >= 4 && choose(2) && !rq.a.empty()) root.set("required", rq); if (choose(2)) root.set("additionalProperties", choose(2) ? J::boolean(false) : small());
            for (unsigned d = 0; d < nd; d++) { J x = J::obj(); uint32_t miss = choose(2 * n); for (uint32_t i = 0; i < n; i++) if (i != miss) x.set("p" + num(i), choose(3) ? J::integer(4) : val()); if (choose(3) == 0) x.set("q", val()); docs.push_back(x); } }
        else if (shape == 2) { uint32_t n = size(400); J e = J::arr(); uint32_t kind = choose(4); auto v = [&](uint32_t i) { return kind == 0 ? J::integer((int64_t)i) : kind == 1 ? J::str("value-" + num(i)) : kind == 2 ? J::arr({J::integer((int64_t)i), J::str("x")}) : one("k", J::integer((int64_t)i)); };
            for (uint32_t i = 0; i < n; i++) e.push(v(i)); root.set("enum", e); for (unsigned d = 0; d < nd; d++) docs.push_back(v(choose(n + 2))); }
        else if (shape == 3 && draft >= 4) { uint32_t n = size(250); const char *k = choose(3) ? choose(2) ? "anyOf" : "oneOf" : "allOf"; J a = J::arr(); for (uint32_t i = 0; i < n; i++) { J s = J::obj(); s.set("enum", k[1] == 'l' ? J::arr({J::integer(0), J::integer((int64_t)i + 1), J::integer(-1)}) : J::arr({J::integer((int64_t)i), J::integer((int64_t)n + (choose(n) == 0))})); a.push(s); } root.set(k, a);
            for (unsigned d = 0; d < nd; d++) docs.push_back(J::integer((int64_t)choose(n + 3) - 1)); }
        else { uint32_t n = size(300); J dp = J::obj(); for (uint32_t i = 0; i < n; i++) { std::string to = "p" + num(i + 1); dp.set("p" + num(i), draft == 3 && choose(2) ? J::str(to) : J::arr({J::str(to)})); } root.set("dependencies", dp);
            for (unsigned d = 0; d < nd; d++) { J x = J::obj(); uint32_t miss = choose(2 * n); for (uint32_t i = choose(2) ? 0 : choose(n); i <= n; i++) if (i != miss) x.set("p" + num(i), J::integer(1)); docs.push_back(x); } }
        break; }
    case 2: {   // deeply nested schema and document
        uint32_t n = size(150), kinds = 1 + choose(7); std::vector<uint32_t> k; for (uint32_t i = 0; i < n; i++) { uint32_t q; do q = choose(3); while (!(kinds & (1u << q))); k.push_back(q); }
        J s = small(); for (uint32_t i = n; i-- > 0;) { if (k[i] == 0) s = one("properties", one("n", s)); else if (k[i] == 1) s = one("items", s); else s = one("additionalProperties", s); } root = s;
        for (unsigned d = 0; d < nd; d++) { uint32_t stop = choose(4) ? n : choose(n); J x = val(); for (uint32_t i = stop; i-- > 0;) { if (k[i] == 1) { J a = J::arr({x}); x = a; } else { J o = J::obj(); o.set(k[i] == 0 ? "n" : "any", x); x = o; } } docs.push_back(x); }
        break; }
    case 3: {   // deep values that are compared
        uint32_t n = size(120); bool arr = choose(2); auto deep = [&](int64_t leaf, uint32_t m) { J x = J::integer(leaf); for (uint32_t i = 0; i < m; i++) { if (arr || i % 3 == 1) { J a = J::arr(); if (i % 2) a.push(J::str("e")); a.push(x); x = a; } else { J o = J::obj(); o.set("d", x); if (i % 2) o.set("e", J::integer((int64_t)i)); x = o; } } return x; };
        uint32_t shape = choose(draft == 7 ? 3 : 2);
        if (shape == 0) { root.set("uniqueItems", J::boolean(true)); for (unsigned d = 0; d < nd; d++) docs.push_back(J::arr({deep(1, n), deep(choose(2), n - choose(2)), deep(2, n)})); }
        else { root.set(shape == 1 ? "enum" : "const", shape == 1 ? J::arr({J::integer(3), deep(1, n), deep(4, n)}) : deep(1, n)); for (unsigned d = 0; d < nd; d++) docs.push_back(deep((int64_t)choose(5), n - (choose(4) == 0))); }
        break; }
    default: {   // long texts and names
        uint32_t n = size(6000); static const char *ch[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"}; auto text = [&](uint32_t m) { std::string t; const char *c = ch[choose(4)]; for (uint32_t i = 0; i < m; i++) t += i % 50 == 49 ? ch[choose(4)] : c; return t; };
        uint32_t shape = choose(3);
        if (shape == 0) { root.set("type", J::str("string")); root.set("maxLength", J::integer((int64_t)n)); if (choose(2)) root.set("minLength", J::integer((int64_t)n - 1)); for (unsigned d = 0; d < nd; d++) docs.push_back(J::str(text(n - 1 + choose(3)))); }
        else if (shape == 1) { std::string nm = text(n), nm2 = nm + "x"; J pr = J::obj(); pr.set(nm, small()); root.set("properties", pr); root.set("additionalProperties", choose(2) ? J::boolean(false) : ty("string")); root.set("title", J::str(text(n))); root.set("description", J::str(text(n))); for (unsigned d = 0; d < nd; d++) { J x = J::obj(); x.set(choose(2) ? nm : nm2, val()); docs.push_back(x); } }
        else { std::string t = text(n); root.set("enum", J::arr({J::str(t), J::str("s")})); for (unsigned d = 0; d < nd; d++) docs.push_back(J::str(choose(3) ? t : t + "x")); }
        break; } }
}
}
