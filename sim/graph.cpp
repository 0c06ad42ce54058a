#include "graph.hpp"
#include <functional>
namespace sim { namespace graph {

size_t countValues(const J &j) { size_t n = 1; for (auto &v : j.a) n += countValues(v); for (auto &p : j.o) n += countValues(p.second); return n; }
size_t World::size() const { size_t n = 0; for (auto &d : docs) n += countValues(d.j); return n; }
void World::log() const {
    ev("world draft=%d root=%s", cfg.draft, dump(docs[0].j).c_str());
    for (size_t i = 1; i < docs.size(); i++) ev("serves %s = %s", docs[i].uri.c_str(), dump(docs[i].j).c_str());
}

// schemas are looked for everywhere but in the values of keywords that hold data
static bool holdsData(const std::string &k) { return k == "enum" || k == "const" || k == "default" || k == "examples"; }
static bool holdsNames(const std::string &k) { return k == "properties" || k == "patternProperties" || k == "definitions" || k == "dependencies"; }
template <class F> static bool below(const J *n, bool byName, F f) {       // f(child, child is a map of names)
    for (auto &p : n->o) { if (!byName && holdsData(p.first)) continue; if (f(&p.second, !byName && holdsNames(p.first), &p.first)) return true; }
    for (auto &v : n->a) if (f(&v, false, nullptr)) return true;
    return false;
}

// ---------------------------------------------------------------- URIs (RFC 3986, section 5.2, hierarchical references)
static bool isAbs(const std::string &u) { return u.find("://") != std::string::npos || u.compare(0, 4, "urn:") == 0; }
static std::string dots(const std::string &p) {
    bool absolute = !p.empty() && p[0] == '/'; std::vector<std::string> out; std::string seg; bool dir = false; size_t i = absolute ? 1 : 0;
    auto flush = [&](bool last) { if (seg == "..") { if (!out.empty()) out.pop_back(); dir = last; } else if (seg == ".") dir = last; else { out.push_back(seg); } seg.clear(); };
    for (; i < p.size(); i++) { if (p[i] == '/') flush(false); else seg += p[i]; }
    flush(true);
    std::string r = absolute ? "/" : ""; for (size_t k = 0; k < out.size(); k++) { if (k) r += '/'; r += out[k]; }
    if (dir && !r.empty() && r.back() != '/') r += '/';
    return r;
}
std::string resolveUri(const std::string &base, bool hasBase, const std::string &ref) {
    if (isAbs(ref) || !hasBase) return ref;
    if (ref.empty()) return base;
    std::string b = base.substr(0, base.find('#')), pre, path; b = b.substr(0, b.find('?')); path = b;
    if (ref[0] == '?') return b + ref;
    size_t rq = ref.find('?'); if (rq != std::string::npos) return resolveUri(b, true, ref.substr(0, rq)) + ref.substr(rq);
    size_t s = b.find("://"); if (s != std::string::npos) { size_t e = b.find('/', s + 3); pre = b.substr(0, e); path = e == std::string::npos ? "/" : b.substr(e); }
    if (ref[0] == '/') return pre + dots(ref);
    size_t l = path.rfind('/'); path = l == std::string::npos ? ref : path.substr(0, l + 1) + ref;
    return pre + dots(path);
}

// ---------------------------------------------------------------- references
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string untoken(const std::string &t) {
    std::string p; for (size_t i = 0; i < t.size(); i++) { if (t[i] == '%' && i + 2 < t.size() + 0 && hexv(t[i + 1]) >= 0 && hexv(t[i + 2]) >= 0) { p += (char)(hexv(t[i + 1]) * 16 + hexv(t[i + 2])); i += 2; } else p += t[i]; }
    std::string r; for (size_t i = 0; i < p.size(); i++) { if (p[i] == '~' && i + 1 < p.size()) { r += p[++i] == '1' ? '/' : '~'; } else r += p[i]; }
    return r;
}
Ctx World::enter(const Ctx &c, const J *n) const {
    Ctx r = c; const J *id = n->t == J::Obj ? n->get(idkw()) : nullptr;
    if (id && id->t == J::Str) { r.base = c.hasBase ? id->s[0] == '#' ? c.base.substr(0, c.base.find('#')) + id->s : resolveUri(c.base, true, id->s) : id->s; r.hasBase = true; }
    return r;
}
static const J *findPlain(const World &w, const J *n, const std::string &name, bool byName = false) {
    if (n->t == J::Obj) { const J *id = n->get(w.idkw()); if (id && id->t == J::Str && id->s == "#" + name) return n; }
    const J *r = nullptr; below(n, byName, [&](const J *k, bool m, const std::string *) { r = findPlain(w, k, name, m); return r != nullptr; });
    return r;
}
Target World::resolve(const Ctx &c, const std::string &ref) const {
    Target t; size_t h = ref.find('#'); std::string u = ref.substr(0, h), frag = h == std::string::npos ? "" : ref.substr(h + 1); bool hasU = h != 0;
    const Doc *d = c.doc; std::string abs = c.base;
    if (hasU) abs = resolveUri(c.base, c.hasBase, u);
    t.local = !hasU || (c.hasBase && abs == c.base);
    if (hasU) { if (const Doc *k = find(abs)) d = k; else if (!t.local) { t.err = "document not available: " + abs; return t; } }
    Ctx k; k.doc = d; k.hasBase = d->hasUri; k.base = d->uri;
    if (!frag.empty() && frag[0] != '/') {
        t.node = findPlain(*this, &d->j, frag); t.ctx = k; if (!t.node) t.err = "no schema with identifier #" + frag; return t;
    }
    t.emptyLocal = t.local && frag.empty();
    const J *n = &d->j; size_t p = 0;
    while (p < frag.size()) {
        size_t e = frag.find('/', p + 1); if (e == std::string::npos) e = frag.size();
        std::string tok = untoken(frag.substr(p + 1, e - p - 1)); k = enter(k, n);
        if (n->t == J::Obj) { n = n->get(tok); if (!n) { t.err = "no member " + tok; return t; } }
        else if (n->t == J::Arr) { size_t ix = 0; for (char ch : tok) { if (ch < '0' || ch > '9') { t.err = "bad index " + tok; return t; } ix = ix > 1000000 ? ix : ix * 10 + (size_t)(ch - '0'); } if (tok.empty() || ix >= n->a.size()) { t.err = "no element " + tok; return t; } n = &n->a[ix]; }
        else { t.err = "cannot descend into scalar"; return t; }
        p = e;
    }
    t.node = n; t.ctx = k; return t;
}
Target World::chase(const Ctx &c, const J *n, bool &cycle) const {
    std::set<const J *> seen; Target t; t.node = n; t.ctx = c; cycle = false;
    for (;;) {
        if (t.node->t != J::Obj) return t;
        const J *r = t.node->get("$ref"); if (!r) return t;
        if (r->t != J::Str) { t.err = "$ref is not a string"; return t; }
        if (!seen.insert(t.node).second) { cycle = true; t.err = "cycle of references"; return t; }
        t = resolve(t.ctx, r->s); if (!t.err.empty()) return t;
    }
}
template <class F> void World::kids(const J *n, F f) const {
    auto one = [&](const char *k) { if (const J *x = n->get(k)) if (x->t == J::Obj || x->t == J::Bool || x->t != J::Arr) f(x, k); };
    auto many = [&](const char *k) { if (const J *x = n->get(k)) if (x->t == J::Arr) for (auto &v : x->a) f(&v, k); };
    auto map = [&](const char *k) { if (const J *x = n->get(k)) if (x->t == J::Obj) for (auto &p : x->o) f(&p.second, k); };
    map("properties"); map("patternProperties"); one("additionalProperties"); map("dependencies");
    if (const J *i = n->get("items")) { if (i->t == J::Arr) many("items"); else f(i, "items"); }
    one("additionalItems");
    if (cfg.draft >= 4) { many("allOf"); many("anyOf"); many("oneOf"); one("not"); }
    if (cfg.draft == 7) { one("if"); if (n->get("if")) { one("then"); one("else"); } one("contains"); one("propertyNames"); }
    if (cfg.draft == 3) { many("extends"); one("extends"); many("type"); }
}
void World::walk(const Ctx &c, const J *n, std::set<std::pair<const J *, std::string>> &seen, Facts &f, const std::string &use) const {
    // follow the chain step by step, so that the documents it names are recorded
    std::set<const J *> chain; Target t; t.node = n; t.ctx = c;
    for (;;) {
        const J *r = t.node->t == J::Obj ? t.node->get("$ref") : nullptr;
        if (!r) break;
        f.refs++;
        if (r->t != J::Str) { f.mustFail = true; f.why = "$ref that is not a string"; return; }
        if (!chain.insert(t.node).second) { f.mustFail = f.pureCycle = true; f.why = "cycle made of references only"; return; }
        size_t h = r->s.find('#'); Ctx from = t.ctx;
        std::string abs = from.base; bool remote = h != 0; if (remote) { abs = resolveUri(from.base, from.hasBase, r->s.substr(0, h)); }
        Target nt = resolve(from, r->s);
        if (remote && !nt.local) { f.remoteRefs++; f.named.insert(abs); }
        if (!nt.err.empty()) {
            if (!find(abs) && localIds.count(abs) && !nt.local) { f.mayFail = true; return; }
            f.mustFail = true; f.why = "reference " + r->s + ": " + nt.err; return;
        }
        if (h != std::string::npos && h + 1 < r->s.size() && r->s[h + 1] != '/' && h != 0) f.mayFail = true;   // identifier in another document
        t = nt;
    }
    n = t.node;
    // draft 3: only a property can be required
    if (cfg.draft == 3 && use != "properties" && n->t == J::Obj && n->get("required")) { f.mayFail = true; if (use == "patternProperties") f.keyClash = true; }
    if (!seen.insert({n, t.ctx.base}).second) return;
    if (n->t == J::Bool && cfg.draft == 7) return;
    if (n->t != J::Obj) { f.mustFail = true; f.why = "target is not a schema"; return; }
    if (const J *e = n->get("enum")) if (e->t != J::Arr) { f.mustFail = true; f.why = "malformed enum"; return; }
    Ctx in = enter(t.ctx, n);
    kids(n, [&](const J *k, const char *kw) {
        std::string w = kw;
        if (w == "additionalProperties" || w == "additionalItems") { if (k->t == J::Bool) return; }
        if (w == "additionalItems") { const J *i = n->get("items"); if (!i || i->t != J::Arr) return; }
        if (w == "type" && k->t == J::Str) return;
        walk(in, k, seen, f, w); });
}
// keys of nodes parsed in place (path in the document) and by reference (path in the embedded schema) can be equal
static bool keyClashes(const World &w, const J *n, std::vector<const std::string *> &path, std::vector<std::unique_ptr<std::string>> &own, bool byName = false) {
    const J *id = n->t == J::Obj ? n->get(w.idkw()) : nullptr;
    if (id && id->t == J::Str && id->s[0] != '#' && !path.empty()) {
        const J *k = n; for (auto *t : path) { if (k->t == J::Obj) k = k->get(*t); else if (k->t == J::Arr) { size_t ix = (size_t)atoi(t->c_str()); k = ix < k->a.size() ? &k->a[ix] : nullptr; } else k = nullptr; if (!k) break; }
        if (k) return true;
    }
    for (auto &p : n->o) { if (!byName && holdsData(p.first)) continue; path.push_back(&p.first); bool r = keyClashes(w, &p.second, path, own, !byName && holdsNames(p.first)); path.pop_back(); if (r) return true; }
    for (size_t i = 0; i < n->a.size(); i++) { own.emplace_back(new std::string(std::to_string(i))); path.push_back(own.back().get()); bool r = keyClashes(w, &n->a[i], path, own); path.pop_back(); if (r) return true; }
    return false;
}
Facts World::analyse() const {
    Facts f; std::set<std::pair<const J *, std::string>> seen; walk(rootCtx(), &docs[0].j, seen, f, "");
    for (auto &d : docs) { std::vector<const std::string *> path; std::vector<std::unique_ptr<std::string>> own; f.keyClash = f.keyClash || keyClashes(*this, &d.j, path, own); }
    // the chain of references at the root
    Target t; t.node = &docs[0].j; t.ctx = rootCtx(); std::vector<std::pair<const J *, bool>> hops;
    for (;;) {
        const J *r = t.node->t == J::Obj ? t.node->get("$ref") : nullptr; if (!r || r->t != J::Str) break;
        size_t at = hops.size(); for (size_t i = 0; i < hops.size(); i++) if (hops[i].first == t.node) { at = i; break; }
        if (at < hops.size()) { bool local = true; for (size_t i = at; i < hops.size(); i++) local = local && hops[i].second; f.rootLocalCycle = local; break; }
        Target nt = resolve(t.ctx, r->s);
        size_t h = r->s.find('#'); bool plain = h != std::string::npos && h + 1 < r->s.size() && r->s[h + 1] != '/';
        hops.push_back({t.node, nt.local && !nt.emptyLocal && !plain});
        if (nt.local && nt.emptyLocal) { f.mayFail = true; }
        if (!nt.err.empty()) break;
        t = nt;
    }
    return f;
}

// ---------------------------------------------------------------- evaluation
World::V World::evalRoot(const J &inst) const { stack.clear(); return eval(rootCtx(), &docs[0].j, inst, 0); }
World::V World::eval(const Ctx &c, const J *n0, const J &x, int depth) const {
    bool cyc; Target t = chase(c, n0, cyc); if (!t.err.empty()) return Diverges;
    const J *n = t.node; if (n->t == J::Bool) return n->b ? True : False;
    if (depth > 900) return Diverges;
    for (auto &p : stack) if (p.first == n && p.second == &x) return Diverges;
    stack.push_back({n, &x}); struct Pop { std::vector<std::pair<const J *, const J *>> &s; ~Pop() { s.pop_back(); } } pop{stack};
    Ctx in = enter(t.ctx, n); bool ok = true, div = false;
    auto sub = [&](const J *k, const J &y) { V v = eval(in, k, y, depth + 1); if (v == Diverges) div = true; return v == True; };
    auto need = [&](bool b) { ok = ok && b; };
    if (const J *e = n->get("enum")) { bool m = false; for (auto &v : e->a) m = m || jeq(v, x); need(m); }
    if (const J *ty = n->get("type")) {
        auto isT = [&](const std::string &s) { return s == "integer" ? x.t == J::Int : s == "object" ? x.t == J::Obj : s == "array" ? x.t == J::Arr : s == "string" ? x.t == J::Str : false; };
        if (ty->t == J::Str) need(isT(ty->s)); else { bool m = false; for (auto &v : ty->a) m = (v.t == J::Str ? isT(v.s) : sub(&v, x)) || m; need(m); } }
    if (x.t == J::Obj) {
        const J *pr = n->get("properties"), *pp = n->get("patternProperties"), *ap = n->get("additionalProperties");
        if (cfg.draft == 3 && pr) for (auto &q : pr->o) if (!x.get(q.first)) { bool cy; Target rt = chase(in, &q.second, cy); if (!rt.err.empty()) div = true; else if (const J *rq = rt.node->t == J::Obj ? rt.node->get("required") : nullptr) need(!rq->b); }
        for (auto &m : x.o) { bool hit = false;
            if (pr) if (const J *k = pr->get(m.first)) { hit = true; need(sub(k, m.second)); }
            if (pp) for (auto &q : pp->o) if (!m.first.empty() && m.first[0] == q.first[1]) { hit = true; need(sub(&q.second, m.second)); }
            if (!hit && ap) need(ap->t == J::Bool ? ap->b : sub(ap, m.second)); }
        // members that a failing patternProperties no longer looks at may be tried against additionalProperties
        if (!ok && pp && ap && ap->t != J::Bool) for (auto &m : x.o) sub(ap, m.second);
        if (const J *d = n->get("dependencies")) for (auto &q : d->o) if (x.get(q.first)) need(sub(&q.second, x));
        if (cfg.draft == 7) if (const J *k = n->get("propertyNames")) for (auto &m : x.o) { J nm = J::str(m.first); need(sub(k, nm)); }
    }
    if (x.t == J::Arr) {
        if (const J *i = n->get("items")) {
            if (i->t == J::Arr) { const J *ai = n->get("additionalItems"); for (size_t k = 0; k < x.a.size(); k++) { if (k < i->a.size()) need(sub(&i->a[k], x.a[k])); else if (ai) need(ai->t == J::Bool ? ai->b : sub(ai, x.a[k])); } }
            else for (auto &v : x.a) need(sub(i, v)); }
        if (cfg.draft == 7) if (const J *k = n->get("contains")) { bool m = false; for (auto &v : x.a) m = sub(k, v) || m; need(m); }
    }
    if (cfg.draft >= 4) {
        if (const J *a = n->get("allOf")) for (auto &k : a->a) need(sub(&k, x));
        if (const J *a = n->get("anyOf")) { bool m = false; for (auto &k : a->a) m = sub(&k, x) || m; need(m); }
        if (const J *a = n->get("oneOf")) { int m = 0; for (auto &k : a->a) m += sub(&k, x); need(m == 1); }
        if (const J *k = n->get("not")) need(!sub(k, x));
    }
    if (cfg.draft == 7) if (const J *k = n->get("if")) { bool b = sub(k, x); if (const J *q = n->get(b ? "then" : "else")) need(sub(q, x)); }
    if (cfg.draft == 3) {
        if (const J *a = n->get("extends")) { if (a->t == J::Arr) { for (auto &k : a->a) need(sub(&k, x)); } else need(sub(a, x)); }
    }
    if (div) return Diverges;
    return ok ? True : False;
}
bool World::inPlaceCycle() const {
    std::deque<std::pair<Ctx, std::vector<const J *>>> todo; std::map<std::pair<const J *, std::string>, int> st; bool found = false;
    std::function<void(const Ctx &, const J *, bool)> go = [&](const Ctx &c, const J *n0, bool) {
        if (found) return; bool cyc; Target t = chase(c, n0, cyc); if (!t.err.empty() || t.node->t != J::Obj) return;
        auto key = std::make_pair(t.node, t.ctx.base); int &v = st[key]; if (v == 1) { found = true; return; } if (v == 2) return; v = 1;
        Ctx in = enter(t.ctx, t.node); std::vector<const J *> deeper;
        kids(t.node, [&](const J *k, const char *kw) { std::string w = kw;
            if (w == "allOf" || w == "anyOf" || w == "oneOf" || w == "not" || w == "if" || w == "then" || w == "else" || w == "extends" || w == "type" || w == "dependencies") go(in, k, true); else deeper.push_back(k); });
        st[key] = 2; todo.push_back({in, deeper}); };
    todo.push_back({rootCtx(), {&docs[0].j}});
    for (size_t i = 0; i < todo.size() && !found; i++) { auto d = todo[i]; for (auto k : d.second) go(d.first, k, false); }
    return found;
}
J World::rootInstance() const { thin = cfg.tower; return instance(rootCtx(), &docs[0].j, thin ? 6 + (int)chooseLog(3 * cfg.tower) : 6); }
J World::instance(const Ctx &c, const J *n0, int depth) const {
    bool cyc; Target t = chase(c, n0, cyc);
    if (!t.err.empty() || t.node->t != J::Obj || depth <= 0) return J::integer((int64_t)choose(8));
    const J *n = t.node; Ctx in = enter(t.ctx, n);
    if (const J *e = n->get("enum")) if (e->t == J::Arr && !e->a.empty() && choose(5)) return e->a[choose((uint32_t)e->a.size())];
    for (const char *k : {"allOf", "anyOf", "oneOf", "extends"}) if (const J *a = n->get(k)) if (thin || choose(3)) return instance(in, a->t == J::Arr && !a->a.empty() ? &a->a[choose((uint32_t)a->a.size())] : a, depth - 1);
    for (const char *k : {"not", "if", "then", "else"}) if (const J *a = n->get(k)) if (choose(3) == 0) return instance(in, a, depth - 1);
    J o = J::obj(); bool obj = false; unsigned kid = 0, main = thin ? choose(2) : 0; auto next = [&] { return !thin || kid++ == main ? depth - 1 : std::min(depth - 1, 2); };
    for (const char *k : {"properties"}) if (const J *p = n->get(k)) { obj = true; for (auto &m : p->o) if (choose(4) || thin) o.set(m.first, instance(in, &m.second, next())); }
    if (const J *p = n->get("patternProperties")) { obj = true; for (auto &m : p->o) if (choose(4)) o.set(std::string(1, m.first[1]) + "z", instance(in, &m.second, depth - 1)); }
    if (const J *p = n->get("additionalProperties")) { obj = true; if (choose(4)) o.set("other", instance(in, p, depth - 1)); }
    if (const J *p = n->get("dependencies")) { obj = true; for (auto &m : p->o) if (choose(4)) { J s = instance(in, &m.second, depth - 1); if (s.t == J::Obj) for (auto &q : s.o) o.set(q.first, q.second); o.set(m.first, J::integer(1)); } }
    if (n->get("propertyNames")) { obj = true; if (choose(2)) o.set("n" + std::to_string(choose(8)), J::integer(1)); }
    if (obj) return o;
    J a = J::arr(); bool arr = false;
    if (const J *i = n->get("items")) { arr = true; if (i->t == J::Arr) { for (auto &k : i->a) a.push(instance(in, &k, depth - 1)); if (const J *q = n->get("additionalItems")) if (choose(2)) a.push(instance(in, q, depth - 1)); } else { uint32_t k = thin ? 1 : choose(3); while (k--) a.push(instance(in, i, depth - 1)); } }
    if (const J *i = n->get("contains")) { arr = true; uint32_t k = 1 + choose(2); while (k--) a.push(instance(in, i, depth - 1)); }
    if (arr) return a;
    return J::integer((int64_t)choose(8));
}

// ---------------------------------------------------------------- generation
namespace {
struct Place { size_t doc; std::string ptr; std::string name; };   // a definition that can be referred to
struct B {
    World &w; const Cfg &c; std::vector<std::string> uris; std::vector<bool> hasBase; std::vector<std::string> base;
    std::vector<std::vector<std::string>> defs; size_t cur = 0; bool noLocal = false; unsigned budget = 60; bool embRich = false; unsigned embCount = 0, inEmb = 0, plainCount = 0;
    std::vector<std::string> embUris; std::vector<std::string> plain; size_t rank = 0; std::string scope; bool hasScope = false;
    B(World &w_, const Cfg &c_) : w(w_), c(c_) {}
    static std::string pct(char c) { char b[8]; snprintf(b, sizeof b, choose(2) ? "%%%02X" : "%%%02x", (unsigned)(unsigned char)c); return b; }
    static std::string esc(const std::string &n) { std::string e; for (char ch : n) e += ch >= 'a' && ch <= 'z' && chance(60) ? pct(ch) : ch == '/' ? std::string("~1") : ch == '~' ? std::string("~0") : ch == ' ' ? std::string("%20") : std::string(1, ch); return e; }
    J leaf() { J s = J::obj(), e = J::arr(); uint32_t n = 2 + choose(4), st = choose(8); for (uint32_t i = 0; i < n; i++) e.push(J::integer((int64_t)((st + i * (1 + choose(2))) % 8))); 
        J u = J::arr(); for (auto &v : e.a) { bool d = false; for (auto &q : u.a) d = d || q.i == v.i; if (!d) u.push(v); } if (choose(6) == 0) u.push(J::str("n" + std::to_string(choose(8)))); s.set("enum", u); return s; }
    std::string spellUri(const std::string &u) {       // another way to write u, seen from the current scope
        if (!c.spell || choose(3) == 0) return u;
        if (!hasScope || u.back() == '/') return u;
        size_t s = u.find("://"), b = scope.find("://");
        if (s == std::string::npos || b == std::string::npos) { if (s == std::string::npos && b == std::string::npos && u.compare(0, 4, "urn:") && u.find('/') == std::string::npos && scope.find('/') == std::string::npos && scope.compare(0, 4, "urn:") && scope[0] != '#') return choose(2) ? "./" + u : "x/../" + u; return u; }
        size_t se = u.find('/', s + 3), be = scope.find('/', b + 3);
        if (se == std::string::npos || be == std::string::npos || u.substr(0, se) != scope.substr(0, be)) return u;
        std::string path = u.substr(se);
        std::string bp = scope.substr(be); bp = bp.substr(0, bp.find('#')); bp = bp.substr(0, bp.find('?'));
        if (path.find('?') != std::string::npos && path.substr(0, path.find('?')) == bp && choose(2)) return path.substr(path.find('?')); std::string dir = bp.substr(0, bp.rfind('/') + 1);
        switch (choose(6)) { case 0: return path; case 4: return "/z/.." + path; case 5: return "/." + path.substr(0, path.rfind('/')) + "/y/./.." + path.substr(path.rfind('/')); case 1: return path.compare(0, dir.size(), dir) == 0 ? path.substr(dir.size()) : path;
            case 2: return path.compare(0, dir.size(), dir) == 0 ? "./" + path.substr(dir.size()) : path;
            default: { std::string up; for (size_t i = 1; i < dir.size(); i++) if (dir[i] == '/') up += "../"; return up + path.substr(1); } }
    }
    J ref() {
        J r = J::obj(); std::string t;
        if (c.errors && chance(40)) {
            if (choose(10) == 0) { static const int kinds = 5; switch (choose(kinds)) { case 0: r.set("$ref", J::integer(5)); break; case 1: r.set("$ref", J::null()); break; case 2: r.set("$ref", J::arr({J::str("#")})); break; case 3: r.set("$ref", J::boolean(true)); break;
                default: { J o = J::obj(); o.set("a", J::str("#")); r.set("$ref", o); } } return r; }
            static const char *bad[] = {"/definitions/none", "/x-str", "/x-num", "/x-null", "/x-list", "/x-list/2", "/x-list/3", "/x-list/-", "/x-list/-1", "/x-list/0x", "/x-list/18446744073709551616", "/x-list/zero", "/x-str/a", "/x-num/0", "/x-list/0/0",
                "/Definitions/a", "/definitions/zz~1q", "/definitions/a/none", "/definitions/a/", "/definitions/b~1c/enum/9", "/definitions//a", "/x-true/a", "/x-true/0", "/x-true/definitions/a", "/x-null/a", "/x-obj/b", "/x-obj/a/c"};
            size_t d = choose((uint32_t)uris.size() + 1); std::string frag = std::string("#") + bad[choose(27)];
            if (d < uris.size() && (d != 0 || !uris[0].empty())) t = (d == 0 ? uris[0] : spellUri(uris[d])) + frag;
            else if (d < uris.size() && !noLocal && cur == 0) t = frag;
            else t = choose(2) ? "http://none/missing.json" + (choose(2) ? "" : frag) : noLocal ? "http://none/y.json" : frag;
            if (choose(10) == 9) t = std::string("http://sim/odd.json") + std::vector<const char *>{"", "#", "#/0", "#/1", "#/a"}[choose(5)];
            r.set("$ref", J::str(t)); return r; }
        if (!embUris.empty() && chance(200)) { r.set("$ref", J::str(spellUri(pick(embUris)) + (choose(4) == 0 ? "#" : choose(3) == 0 ? "#/definitions/x" : ""))); return r; }
        if (!plain.empty() && !noLocal && chance(200)) { r.set("$ref", J::str("#" + pick(plain))); return r; }
        size_t d = choose((uint32_t)uris.size() + 1); if (d >= uris.size()) d = cur;
        if (d == cur && noLocal && uris[cur].empty()) { d = uris.size() > 1 ? 1 + choose((uint32_t)uris.size() - 1) : 0; if (d == 0) return leaf(); }
        if (d == 0 && uris[0].empty() && cur != 0) d = cur;
        std::string frag; bool whole = chance(120);
        if (!whole && !defs[d].empty()) { size_t k = choose((uint32_t)defs[d].size()); if (!c.cycles && d == cur) { if (rank + 1 >= defs[d].size()) return leaf(); k = rank + 1 + choose((uint32_t)(defs[d].size() - rank - 1)); }
            frag = "/" + std::string(defs[d][k] == "arr" ? "x-arr" : "definitions") + "/" + (defs[d][k] == "arr" ? "0" : esc(defs[d][k])); }
        else if (!c.cycles && d == cur) return leaf();
        if (!c.cycles && d < cur) return leaf();
        if (c.deep && !whole && (c.cycles || d > cur) && chance(250)) frag = "@deep" + std::to_string(d) + "@";
        if (d == cur && !noLocal && (uris[cur].empty() || choose(4))) t = "#" + frag;
        else t = spellUri(uris[d]) + (frag.empty() ? (choose(2) ? "#" : "") : "#" + frag);
        r.set("$ref", J::str(t));
        if (choose(12) == 0) r.set("enum", J::arr({J::integer(99)}));    // siblings of $ref are ignored
        return r;
    }
    J sub(int depth) {
        if (budget == 0) return leaf();
        budget--;
        if (c.draft == 7 && chance(40)) return J::boolean(choose(3) != 0);
        if (chance(420)) return ref();
        if (depth <= 0 || choose(4) == 0) return leaf();
        J s = J::obj(); std::string keepS = scope; bool keepH = hasScope, keepN = noLocal;
        if (c.ids && chance(inEmb ? 250 : embRich ? 300 : 90)) {      // an embedded document with its own identity
            static const char *hosts[] = {"http://sim/", "http://other.sim/", "http://emb.sim/dir/"};
            std::string tail = "e" + std::to_string(embCount++) + ".json", u = hosts[choose(3)] + std::string("emb/") + tail, as = u;
            if (hasScope && scope.compare(0, 7, "http://") == 0 && scope.find_first_of("?#") == std::string::npos && choose(3)) { as = choose(2) ? "/emb/" + tail : choose(2) ? tail : "sub/" + tail; u = resolveUri(scope, true, as); }
            s.set(w.idkw(), J::str(as)); embUris.push_back(u); scope = u; hasScope = true; noLocal = true; inEmb++;
        }
        uint32_t n = 1 + choose(2);
        for (uint32_t i = 0; i < n; i++) keyword(s, depth);
        if (s.get(w.idkw())) { J dd = J::obj(), y = J::obj(), pr = J::obj(); pr.set("p0", choose(2) ? ref() : leaf()); y.set("properties", pr); dd.set("x", choose(3) ? y : leaf()); s.set("definitions", dd); }
        if (s.get(w.idkw())) inEmb--;
        scope = keepS; hasScope = keepH; noLocal = keepN;
        if (s.o.empty()) return leaf();     // "{}" is taken for an empty array or string in some places
        return s;
    }
    // draft 3: definitions that make a property required, referred to from properties only
    std::vector<size_t> reqRefs;
    J reqRef() { J r = J::obj(); size_t d = cur == reqRefs[0] && !noLocal ? cur : reqRefs[choose((uint32_t)reqRefs.size())]; if (d == cur && !noLocal) r.set("$ref", J::str("#/definitions/rq")); else if (d == 0 && uris[0].empty()) return leaf(); else r.set("$ref", J::str(spellUri(uris[d]) + "#/definitions/rq")); return r; }
    J list(int depth) { J a = J::arr(); uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; i++) a.push(sub(depth - 1)); return a; }
    J objSub(int depth) { for (int i = 0; i < 4; i++) { J x = sub(depth); if (x.t == J::Obj) return x; } return leaf(); }
    const char *props[5] = {"p0", "p1", "p/2", "p~3", "q4"};
    void oddNames() { static const char *words[] = {"$ref", "enum", "default", "items", "definitions", "$id", "id", "properties", "0", "not", "const", "additionalProperties", "%41", "A", "~1", "~01", "%7E1", "%25", "", "a?b", "\xc3\xa9", "a#b", "a\\b\"c", ".."}; if (choose(5) == 4) { for (uint32_t k = 1 + choose(2); k--;) props[1 + choose(4)] = words[choose(24)]; if (choose(4) == 3) { props[1] = "%41"; props[2] = "A"; } } }
    void keyword(J &s, int depth) {
        switch (choose(14)) {
        case 0: case 1: case 2: case 3: { J o = J::obj(); uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; i++) { J x = c.draft == 3 && !reqRefs.empty() && chance(350) ? reqRef() : sub(depth - 1); if (c.draft == 3 && x.t == J::Obj && !x.get("$ref") && chance(150)) x.set("required", J::boolean(choose(4) != 0)); o.set(props[choose(5)], x); } s.set("properties", o); break; }
        case 4: { J o = J::obj(); o.set(choose(2) ? "^q" : "^r", sub(depth - 1)); s.set("patternProperties", o); break; }
        case 5: s.set("additionalProperties", choose(4) == 0 ? J::boolean(choose(2)) : objSub(depth - 1)); break;
        case 6: { J o = J::obj(); o.set(props[choose(5)], objSub(depth - 1)); s.set("dependencies", o); break; }
        case 7: s.set("items", objSub(depth - 1)); break;
        case 8: { J a = J::arr(); uint32_t n = 1 + choose(2); for (uint32_t i = 0; i < n; i++) a.push(objSub(depth - 1)); s.set("items", a); if (choose(2)) s.set("additionalItems", objSub(depth - 1)); break; }
        case 9: if (c.draft == 3) s.set("extends", choose(2) ? [&] { J a = J::arr(); a.push(objSub(depth - 1)); a.push(objSub(depth - 1)); return a; }() : objSub(depth - 1)); else s.set("allOf", list(depth)); break;
        case 10: if (c.draft != 3) s.set("anyOf", list(depth)); break;
        case 11: if (c.draft == 3) { J a = J::arr(); a.push(objSub(depth - 1)); if (choose(2)) a.push(J::str("string")); s.set("type", a); } else s.set("oneOf", list(depth)); break;
        case 12: if (c.draft >= 4) s.set("not", sub(depth - 1)); break;
        case 13: if (c.draft == 7) switch (choose(3)) { case 0: s.set("if", sub(depth - 1)); s.set("then", sub(depth - 1)); if (choose(2)) s.set("else", sub(depth - 1)); break; case 1: s.set("contains", sub(depth - 1)); break; default: { J x = choose(2) ? leaf() : ref(); s.set("propertyNames", x); break; } } break;
        }
    }
    J document(size_t d) {
        cur = d; scope = uris[d]; hasScope = !uris[d].empty(); noLocal = false; plain.clear(); J s = J::obj(); rank = (size_t)-1;
        std::vector<std::string> keep = defs[d];
        if (c.ids && uris[d].find('?') == std::string::npos && chance(200)) { plain.push_back("loc" + std::to_string(d)); }
        bool rr = d == 0 ? c.rootRef : chance(150);
        if (d == 0 && !rr && !uris[0].empty()) s.set(w.idkw(), J::str(uris[0]));
        if (d == 0 && rr) { scope = ""; hasScope = false; uris[0] = ""; }
        if (d > 0 && !rr && c.ids && chance(300)) {
            if (choose(2)) s.set(w.idkw(), J::str(uris[d]));
            else { std::string a = choose(2) ? "http://alias.sim/x/r" + std::to_string(d) + ".json" : "http://sim/dir/r" + std::to_string(d) + ".json"; s.set(w.idkw(), J::str(a)); scope = a; hasScope = true; if (choose(2)) embUris.push_back(a); } }
        if (rr) s = ref();
        else { uint32_t n = 1 + choose(3); for (uint32_t i = 0; i < n; i++) keyword(s, (int)c.size); }
        if (c.custom && !rr) s.set("x-custom", J::integer(0));
        if (s.t == J::Obj) {
            J defsO = J::obj();
            for (size_t k = 0; k < defs[d].size(); k++) { rank = k; J x = c.pureCycles && choose(3) == 0 ? ref() : sub((int)c.size - 1);
                if (!c.pureCycles && x.get("$ref") && choose(6)) { J y = J::obj(); if (c.draft == 3) y.set("extends", x); else y.set("allOf", J::arr({x})); x = y; }
                if (defs[d][k] == "arr") { J a = J::arr(); a.push(x); s.set("x-arr", a); } else defsO.set(defs[d][k], x); }
            for (size_t q : reqRefs) if (q == d) { J l = choose(3) ? leaf() : J::obj(); if (l.o.empty()) { J o = J::obj(); o.set(choose(2) ? "p0" : "q4", choose(2) ? reqRef() : leaf()); l.set("properties", o); } l.set("required", J::boolean(choose(4) != 0)); defsO.set("rq", l); }
            for (auto &p : plain) { J l = leaf(); l.set(w.idkw(), J::str("#" + p)); defsO.set("plain-" + p, l); }
            if (!defsO.o.empty()) s.set("definitions", defsO);
            if (c.errors) { s.set("x-str", J::str("not a schema")); s.set("x-num", J::integer(4)); s.set("x-null", J::null()); s.set("x-true", J::boolean(choose(2))); { J o = J::obj(); o.set("a", leaf()); s.set("x-obj", o); } J l = J::arr(); l.push(leaf()); l.push(leaf()); s.set("x-list", l); }
            if (c.errors && chance(30)) { J m = J::obj(); m.set("enum", J::integer(7)); s.set("properties", [&] { J o = J::obj(); o.set("p0", m); return o; }()); }
        }
        return s;
    }
};
// every place of a document that holds a schema
void places(const J *n, const std::string &at, bool pure, std::vector<std::string> &out) {
    if (n->t == J::Obj && (pure || !n->get("$ref")) && !n->o.empty() && !at.empty()) out.push_back(at);
    if (n->t == J::Bool) out.push_back(at);
    if (n->t != J::Obj || n->get("$ref")) return;
    for (const char *k : {"additionalProperties", "items", "additionalItems", "not", "if", "then", "else", "contains", "propertyNames", "extends"}) if (const J *x = n->get(k)) if (x->t == J::Obj) places(x, at + "/" + k, pure, out);
    for (const char *k : {"properties", "patternProperties", "dependencies", "definitions"}) if (const J *x = n->get(k)) if (x->t == J::Obj) for (auto &m : x->o) { std::string q; for (char ch : B::esc(m.first)) q += ch == '#' ? std::string("%23") : ch == '%' && choose(4) != 3 ? std::string("%25") : std::string(1, ch); for (size_t i; (i = q.find('^')) != std::string::npos;) q.replace(i, 1, "%5E"); if (m.second.t == J::Obj) places(&m.second, at + "/" + k + "/" + q, pure, out); }
    for (const char *k : {"items", "allOf", "anyOf", "oneOf", "extends", "type", "x-arr"}) if (const J *x = n->get(k)) if (x->t == J::Arr) for (size_t i = 0; i < x->a.size(); i++) if (x->a[i].t == J::Obj) places(&x->a[i], at + "/" + k + "/" + std::to_string(i), pure, out);
}
void fixDeep(J &n, const std::vector<std::vector<std::string>> &pl) {
    for (auto &m : n.o) if (m.first == "$ref" && m.second.t == J::Str && m.second.s.find("@deep") != std::string::npos) {
        size_t a = m.second.s.find("@deep"), e = m.second.s.find('@', a + 1); size_t d = (size_t)atoi(m.second.s.c_str() + a + 5);
        m.second.s = m.second.s.substr(0, a) + (pl[d].empty() ? "" : pl[d][choose((uint32_t)pl[d].size())]) + m.second.s.substr(e + 1);
    } else fixDeep(m.second, pl);
    for (auto &v : n.a) fixDeep(v, pl);
}
void collectIds(World &w, const Ctx &c, const J *n, bool byName = false) {
    Ctx in = c;
    if (n->t == J::Obj) { const J *id = n->get(w.idkw()); if (id && id->t == J::Str && id->s[0] != '#') { in = w.enter(c, n); w.localIds.insert(in.base);
        if (!w.find(in.base)) { J own = *n; own.set(w.idkw(), J::str(in.base)); w.docs.push_back({in.base, true, own}); w.served[in.base] = &w.docs.back(); } } }
    below(n, byName, [&](const J *k, bool m, const std::string *) { collectIds(w, in, k, m); return false; });
}
// values that look like schemas with the identifier of something else
void decoys(World &w, J &n, bool byName, const std::vector<std::string> &names) {
    bool ref = n.t == J::Obj && n.get("$ref");
    for (auto &p : n.o) { if (!byName && holdsData(p.first)) continue; decoys(w, p.second, !byName && holdsNames(p.first), names); }
    for (auto &v : n.a) decoys(w, v, false, names);
    if (n.t != J::Obj || byName || ref || n.o.empty() || !chance(60)) return;
    J d = J::obj(); d.set(w.idkw(), J::str(pick(names))); if (choose(3)) { J e = J::arr(); e.push(J::integer((int64_t)choose(8))); d.set("enum", e); } else d.set("p0", J::integer(1));
    if (choose(4) == 0) { J o = J::obj(); o.set("q", d); d = o; }
    for (auto &p : n.o) if (p.first == "enum" && p.second.t == J::Arr && choose(2)) { if (choose(2)) p.second.a.insert(p.second.a.begin(), d); else p.second.a.push_back(d); return; }
    J v = choose(3) ? d : J::arr({J::integer(1), d}); std::string k = w.cfg.draft == 7 && choose(2) ? "examples" : "default"; if (n.get(k.c_str())) return;
    if (choose(2)) n.set(k, v); else n.o.insert(n.o.begin(), std::make_pair(k, v));
}
}
// a chain of many documents or definitions, perhaps closed to a cycle through constraints, sharing one more document
static void tower(World &w, const Cfg &c) {
    uint32_t n = 2 + (choose(2) ? choose(c.tower) : chooseLog(c.tower)); bool close = choose(2), share = choose(2), rich = choose(3) == 0, fan = choose(3) == 2; uint32_t mode = choose(4);      // all local, all remote, alternating, in blocks
    auto R = [](const std::string &u) { J r = J::obj(); r.set("$ref", J::str(u)); return r; };
    std::vector<bool> rem; for (uint32_t i = 0; i < n; i++) rem.push_back(mode == 0 ? false : mode == 1 ? true : mode == 2 ? choose(2) : i / 8 % 2);
    const bool hasId = choose(2); const std::string rootUri = "http://sim/dir/root.json"; auto uri = [&](uint32_t i) { return "http://sim/dir/l" + std::to_string(i) + ".json"; };
    auto leaf = [&] { J s = J::obj(), e = J::arr(); uint32_t m = 2 + choose(4), st = choose(8); for (uint32_t i = 0; i < m; i++) e.push(J::integer((int64_t)((st + i) % 8))); s.set("enum", e); return s; };
    auto refTo = [&](uint32_t from, uint32_t to) { bool fromRoot = from == ~0u || !rem[from];
        if (!rem[to]) return fromRoot ? R("#/definitions/l" + std::to_string(to)) : R(rootUri + "#/definitions/l" + std::to_string(to));
        std::string u = uri(to), t = "l" + std::to_string(to) + ".json"; if (c.spell && (!fromRoot || hasId)) switch (choose(5)) { case 0: u = t; break; case 1: u = "./" + t; break; case 2: u = "../dir/" + t; break; case 3: u = "/dir/" + t; break; default: break; }
        return R(u + (choose(3) ? "" : "#")); };
    // documents cannot refer to definitions of a root without identifier
    if (!hasId) for (uint32_t i = 0; i + 1 < n; i++) if (rem[i]) { for (uint32_t k = i + 1; k < n; k++) rem[k] = true; break; }
    if (!hasId && n && rem[n - 1] && !rem[0]) close = false;
    J root = J::obj(), defs = J::obj(); if (hasId) root.set(w.idkw(), J::str(rootUri)); std::vector<std::pair<uint32_t, J>> out;
    std::vector<std::string> want;
    for (uint32_t i = 0; i < n; i++) {
        J x = J::obj();
        if (fan) { x = leaf(); if (share && choose(2)) { J p = J::obj(); p.set("v", x); p.set("s", R("http://other.sim/shared.json")); x = J::obj(); x.set("properties", p); } if (rem[i]) { J dd = J::obj(); dd.set("y", leaf()); x.set("definitions", dd); } }
        else if (i + 1 < n || close) {
            uint32_t to = i + 1 < n ? i + 1 : 0; J r = refTo(i, to);
            switch (choose(i + 1 == n ? 3 : rich ? 8 : 4)) {
            case 0: case 1: { J p = J::obj(); p.set("n", r); if (share) p.set("s", R("http://other.sim/shared.json")); if (choose(3) == 0) p.set("v", leaf()); x.set("properties", p); break; }
            case 2: x.set("items", r); break;
            case 3: x.set("additionalProperties", r); if (choose(3) == 0) { J p = J::obj(); p.set("v", leaf()); x.set("properties", p); } break;
            case 4: if (c.draft == 3) x.set("extends", r); else x.set("allOf", J::arr({r})); break;
            case 5: if (c.draft == 3) x.set("extends", J::arr({r})); else x.set("anyOf", J::arr({leaf(), r})); break;
            case 6: if (c.draft == 3) x.set("extends", r); else x.set("oneOf", J::arr({r, leaf()})); break;
            default: x = r; break; }
            if (x.t == J::Obj && !x.get("$ref") && rem[i] && c.ids && choose(4) == 0) x.set(w.idkw(), J::str(uri(i)));
        } else x = leaf();
        if (rem[i]) out.emplace_back(i, x); else defs.set("l" + std::to_string(i), x);
    }
    if (fan) {      // everything is referred to directly, in some order, and some of it again
        J p = J::obj(); uint32_t off = choose(n), again = chooseLog(n); for (uint32_t i = 0; i < n; i++) p.set("p" + std::to_string(i), refTo(~0u, (off + i) % n)); for (uint32_t i = 0; i < again; i++) { uint32_t to = choose(n); J r = refTo(~0u, to); if (rem[to] && choose(3)) { std::string u = r.get("$ref")->s; r = R(u.substr(0, u.find('#')) + "#/definitions/y"); } p.set("q" + std::to_string(i), r); }
        root.set("properties", p); }
    J first = refTo(~0u, 0); if (fan) root.set("additionalProperties", first); else if (choose(2)) { J p = J::obj(); p.set("n", first); root.set("properties", p); } else root.set("items", first);
    if (c.custom) root.set("x-custom", J::integer(0));
    if (!defs.o.empty()) root.set("definitions", defs);
    w.docs.push_back({"", false, root});
    auto serve = [&](const std::string &u, const J &j) { w.docs.push_back({u, true, j}); w.served[u] = &w.docs.back(); };
    for (auto &o : out) serve(uri(o.first), o.second);
    if (share) serve("http://other.sim/shared.json", leaf());
    size_t k = w.docs.size(); for (size_t d = 0; d < k; d++) { Ctx q; q.doc = &w.docs[d]; q.base = w.docs[d].uri; q.hasBase = w.docs[d].hasUri; collectIds(w, q, &w.docs[d].j); }
}
void generate(World &w, const Cfg &c) {
    w.cfg = c; if (c.tower) { tower(w, c); return; }
    B b(w, c); b.embRich = choose(3) == 0; b.oddNames();
    // identities: root first
    static const char *rootUris[] = {"", "http://sim/root.json", "http://sim/dir/root.json", "urn:sim:root"};
    static const char *remotes[] = {"http://sim/a.json", "http://sim/dir/b.json", "http://sim/dir/sub/c.json", "http://other.sim/d.json", "urn:sim:doc:e", "http://sim/a.jsonx", "http://sim/q.json?v=1", "http://sim/q.json?v=a/b", "http://sim/A.json", "https://sim/a.json", "http://sim/dir/sub/C.json", "http://sim/a%20b.json", "http://sim/dir/a.json", "http://sim/dir/sub/a.json", "http://other.sim/a.json", "http://sim/a.json/"};
    static const char *relative[] = {"a.json", "b.json", "c.json", "d.json"};
    b.uris.push_back(rootUris[choose(4)]); bool rel = b.uris[0].empty() && choose(3) == 0; uint32_t off = choose(16), step = 1 + 2 * choose(8);
    for (unsigned i = 0; i < c.docs; i++) b.uris.push_back(rel ? relative[i % 4] : remotes[(off + i * step) % 16]);
    static const char *names[] = {"a", "b/c", "d~e", "f g", "0", "arr", "properties", "enum", "x~1y"};
    for (size_t d = 0; d < b.uris.size(); d++) { std::vector<std::string> v; uint32_t n = 1 + choose(4); for (uint32_t i = 0; i < n; i++) v.push_back(names[(i + choose(9)) % 9]);
        std::vector<std::string> u; for (auto &x : v) { bool dup = false; for (auto &y : u) dup = dup || x == y; if (!dup) u.push_back(x); } b.defs.push_back(u); }
    if (c.rootRef) b.uris[0] = "";
    if (c.draft == 3 && c.cycles) for (size_t d = 0; d < b.uris.size(); d++) if (choose(3) == 0) b.reqRefs.push_back(d);
    std::vector<J> js; for (size_t d = 0; d < b.uris.size(); d++) { b.budget = 30 + choose(30); js.push_back(b.document(d)); }
    if (c.deep) { std::vector<std::vector<std::string>> pl; for (auto &j : js) { pl.emplace_back(); places(&j, "", c.pureCycles, pl.back()); } for (auto &j : js) fixDeep(j, pl); }
    if (c.ids && choose(3) == 0) { std::vector<std::string> ns = b.embUris; for (size_t d = 1; d < b.uris.size(); d++) ns.push_back(b.uris[d]); for (size_t d = 0; d < b.uris.size(); d++) ns.push_back("#loc" + std::to_string(d)); if (!b.uris[0].empty()) ns.push_back(b.uris[0]); ns.push_back("sub/x.json"); for (auto &j : js) decoys(w, j, false, ns); }
    w.docs.push_back({"", false, js[0]});
    for (size_t d = 1; d < js.size(); d++) { w.docs.push_back({b.uris[d], true, js[d]}); }
    if (c.errors) {      // a document that is no schema
        J x; switch (choose(6)) { case 0: case 1: x = J::arr({b.leaf(), J::integer(3)}); break; case 2: x = J::str("text"); break; case 3: x = J::integer(7); break; case 4: x = J::boolean(choose(2)); break; default: break; }
        w.docs.push_back({"http://sim/odd.json", true, x}); }
    for (size_t d = 1; d < w.docs.size(); d++) w.served[w.docs[d].uri] = &w.docs[d];
    size_t n = w.docs.size();
    for (size_t d = 0; d < n; d++) { Ctx k; k.doc = &w.docs[d]; k.base = w.docs[d].uri; k.hasBase = w.docs[d].hasUri; collectIds(w, k, &w.docs[d].j); }
}

}} // namespace
