// C03, C04, C05, C12: documents that refer to each other, served by a simulated
// server that fails, changes its content and hands out memory that is poisoned on release.
#include "graph.hpp"
using namespace valijson;
namespace sim {
namespace {
using namespace graph;

struct Net {        // the simulated server
    const Lib *lib; World &w; std::vector<std::pair<const void *, std::string>> live; std::map<std::string, unsigned> fetched; std::vector<std::string> order; unsigned released = 0, total = 0;
    int failAt = -1, throwAt = -1; bool skew = false, hostile = false; bool failed = false; unsigned thrown = 0; std::set<std::string> down; bool checkC04 = false, checkC03 = true;
    int throwKind = 0; bool rightException(const Outcome &o) const { return o.is((uint32_t)throwKind, throwAt + 1); }
    void (*onFetch)(Net &, const std::string &) = nullptr;
    Lib::Fetch f; Lib::Free g;
    Net(const Lib *l, World &world) : lib(l), w(world) {
        f = [this](const std::string &u) { heap::Harness h; return fetch(u); };
        g = [this](const void *d) { heap::Harness h; release(d); };
    }
    ~Net() { for (auto &p : live) lib->destroy(p.first); }
    static J other(const J &j) {     // a different version of a document: all marker values shifted
        J r = j; if (r.t == J::Int) { r.i = (r.i + 1) % 8; return r; } for (auto &v : r.a) v = other(v); for (auto &p : r.o) p.second = other(p.second); return r; }
    const void *fetch(const std::string &u) {
        unsigned n = fetched[u]++; order.push_back(u); int k = (int)total++;
        ev("fetch %s", u.c_str());
        if (checkC04 && n) violation("fetched-twice", fmt("document %s was requested %u times during one build", u.c_str(), n + 1));
        if (total > 2000) violation("endless-fetching", fmt("more than 2000 fetches in one build, last one %s", u.c_str()));
        if (k == throwAt) { failed = true; thrown++; faultFired("fetch-throws"); throwSim((uint32_t)throwKind, k + 1); }
        const Doc *d = w.find(u);
        if (k == failAt || down.count(u)) { failed = true; if (d) faultFired("fetch-null"); return nullptr; }
        if (!d) { failed = true; return nullptr; }
        if (n && skew) faultFired("content-changed");
        const void *p = lib->make(n && skew ? other(d->j) : d->j); live.push_back({p, u}); return p;
    }
    void release(const void *d) {
        for (size_t i = 0; i < live.size(); i++) if (live[i].first == d) { live.erase(live.begin() + (long)i); released++; lib->destroy(d); return; }
        if (checkC03) violation("released-unknown", d ? "the release function was called with a pointer that is not a fetched, unreleased document" : "the release function was called with a null pointer");
    }
};

struct Setup { World w; const Lib *lib; const void *root; bool custom;
    Setup(const Cfg &c) { generate(w, c); lib = pickLib(); custom = c.custom; root = lib->make(w.docs[0].j); w.log(); ev("lib %s", lib->name()); }
    ~Setup() { lib->destroy(root); }
};
int when(const World &w, uint32_t usual) { return (int)(choose(3) ? choose(usual) : choose((uint32_t)w.served.size() + 1)); }      // index of the call that fails
Cfg pickGraph() {
    Cfg c; uint32_t d = choose(8); c.draft = d < 4 ? 7 : d < 6 ? 4 : 3; c.docs = choose(5); c.size = 1 + choose(3); c.rootRef = chance(220); c.ids = choose(3) != 0; c.spell = choose(3) != 0; c.deep = choose(2); if (choose(12) == 0) c.tower = 2 + choose(choose(4) ? 100 : 400); return c; }
void setBudgetFor(const World &w) { uint64_t n = w.size(); heap::resetCount(); heap::setBudget(1000000 + 400 * n * n); }

std::unique_ptr<SchemaParser> newParser(const Setup &s) { heap::LibCall c; auto p = std::unique_ptr<SchemaParser>(new SchemaParser(versionOf(s.w.cfg.draft))); if (s.custom) p->addConstraintBuilder("x-custom", new CustomBuilder); return p; }
Outcome build(Setup &s, SchemaParser &p, Schema &sc, Net *n) {
    setBudgetFor(s.w);
    Outcome o = guarded([&](Outcome &) { heap::LibCall c; s.lib->populate(p, s.root, sc, n ? &n->f : nullptr, n ? &n->g : nullptr); });
    heap::setBudget(0); steps(heap::allocCount()); return o;
}
void compareModel(Setup &s, const Schema &sc, unsigned docs, const char *cls) {
    Options opt; AnyValidator v(opt);
    for (unsigned i = 0; i < docs; i++) {
        J x = s.w.rootInstance(); World::V m = s.w.evalRoot(x); if (m == World::Diverges) continue;
        const void *d = s.lib->make(x); where("validating %.80s", dump(x).c_str());
        Outcome o = doValidate(v, s.lib, sc, d, nullptr); s.lib->destroy(d); evaluated();
        ev("instance %s -> %d", dump(x).c_str(), m == World::True);
        if (o.threw()) violation(cls, "validating " + dump(x) + " threw: " + o.text());
        if (o.verdict != (m == World::True)) violation(cls, fmt("document %s is %s, but the constraints found at the reference targets %s it", dump(x).c_str(), o.verdict ? "accepted" : "rejected", m == World::True ? "accept" : "reject"));
    }
}
void checkReleased(Net &n, const Outcome &o) { evaluated(); if (!n.live.empty()) violation("not-released", fmt("%zu of %u fetched documents were not released when the build ended with %s; first: %s", n.live.size(), n.total, o.threw() ? o.text().c_str() : "success", n.live[0].second.c_str())); }

// ---------------------------------------------------------------- C03
int customThrowAt, customCalls;
void customMake() { heap::Harness h; if (customCalls++ == customThrowAt) { faultFired("builder-throws"); throwSim(choose(kThrowTypes), 77); } }
void runC03() {
    where("setup"); Cfg c = pickGraph(); c.docs = 1 + choose(4); c.errors = choose(2); c.pureCycles = choose(4) == 0; c.custom = choose(3) == 0;
    Setup s(c); Facts f = s.w.analyse(); if (f.rootLocalCycle || f.keyClash) return;
    heap::ledgerReset();
    auto p = newParser(s); int rounds = 1 + (int)choose(3);
    for (int r = 0; r < rounds; r++) {
        Net n(s.lib, s.w); n.skew = choose(4) == 0; heap::Plan pl; bool alloc = false; customThrowAt = -1; customCalls = 0;
        switch (choose(7)) {
        case 0: break;
        case 1: n.failAt = when(s.w, 4); faultPlanned("fetch-null"); break;
        case 2: n.throwAt = when(s.w, 4); n.throwKind = (int)choose(kThrowTypes); faultPlanned("fetch-throws"); break;
        case 3: case 4: alloc = true; pl.from = chooseLog(2500); pl.count = choose(3) ? 1 : ~0ull >> 1; faultPlanned("alloc-failure"); break;
        case 5: alloc = true; pl.permille = 1 + choose(20); pl.from = choose(1000); faultPlanned("alloc-random"); break;
        default: if (c.custom) { customThrowAt = (int)choose(4); faultPlanned("builder-throws"); } else if (!s.w.served.empty()) { auto it = s.w.served.begin(); std::advance(it, choose((uint32_t)s.w.served.size())); n.down.insert(it->first); faultPlanned("fetch-null"); } break; }
        where("build %d", r); customMakeHook = customMake;
        std::unique_ptr<Schema> sc(new Schema); if (alloc) { heap::arm(pl); }
        Outcome o = build(s, *p, *sc, &n);
        uint64_t fired = alloc ? heap::firedCount() : 0; heap::disarm(); customMakeHook = nullptr;
        if (fired) faultFired(pl.permille ? "alloc-random" : "alloc-failure", (unsigned)fired);
        ev("build -> %s, fetched %u released %u", o.threw() ? "exception" : "success", n.total, n.released);
        if (n.released) { nontrivial(); sig(mix(n.released, o.kind)); }
        checkReleased(n, o); evaluated();
    }
}
// ---------------------------------------------------------------- C04
void runC04() {
    where("setup"); Cfg c = pickGraph(); c.docs = 1 + choose(4); c.errors = choose(5) == 0; c.spell = choose(4) != 0;
    Setup s(c); Facts f = s.w.analyse(); if (f.rootLocalCycle || f.keyClash) return;
    auto p = newParser(s); Net n(s.lib, s.w); n.checkC04 = true; n.skew = true; faultPlanned("content-changed");
    switch (choose(6)) { case 0: n.failAt = when(s.w, 3); faultPlanned("fetch-null"); break; case 1: n.throwAt = when(s.w, 3); n.throwKind = (int)choose(kThrowTypes); faultPlanned("fetch-throws"); break; default: break; }
    Schema sc; where("build"); Outcome o = build(s, *p, sc, &n);
    ev("build -> %s, %u fetches", o.threw() ? o.what.c_str() : "success", n.total);
    for (auto &u : n.fetched) { evaluated(); if (!f.named.count(u.first)) violation("unexpected-uri", fmt("fetch called with '%s', which no reference names", u.first.c_str())); }
    if (n.total) { nontrivial(); uint64_t h = 0; for (auto &u : n.order) h = mix(h, hashStr(u)); sig(h); }
    if (!o.threw()) compareModel(s, sc, 4, "mixed-versions");
    // a second build with the same parser fetches again, and again at most once per document
    Net m(s.lib, s.w); m.checkC04 = true; m.skew = true; Schema sd; where("second build"); Outcome q = build(s, *p, sd, &m);
    if (!o.threw() && !q.threw() && m.fetched != n.fetched) violation("cache-outlives-build", fmt("the second build made %u fetches, the first %u", m.total, n.total));
}
// ---------------------------------------------------------------- C05
// Identifiers and the scopes they are in: a relative identifier must not match a reference from
// another scope, must be found by its full URI, and two embeddings must not be mixed up (recorded).
void embeddedScopes() {
    World w; w.cfg.draft = 7; auto O = [](std::initializer_list<std::pair<const char *, J>> l) { J o = J::obj(); for (auto &p : l) o.set(p.first, p.second); return o; };
    auto R = [&](const char *u) { return O({{"$ref", J::str(u)}}); }; auto E = [&](int k) { return O({{"enum", J::arr({J::integer(k)})}}); };
    auto serve = [&](const char *u, J j) { w.docs.push_back({u, true, j}); w.served[u] = &w.docs.back(); };
    uint32_t kind = choose(3); bool second = kind == 1; J root, inst = J::obj();
    auto wrap = [&](const J &x) { return O({{"x", O({{"q", x}})}}); };
    if (kind == 2) {  // a schema parsed where it is embedded, and again by its identifier
        J deep = O({{"additionalProperties", E(1)}, {"properties", O({{"q", E(2)}})}});
        root = O({{"$id", J::str("http://sim/root.json")}, {"additionalProperties", O({{"$id", J::str("http://sim/e.json")}, {"additionalProperties", deep}})}, {"items", R("http://sim/e.json")}}); w.docs.push_back({"", false, root});
    } else if (second) {   // the base of a fetched document is forgotten inside an embedded one
        root = O({{"properties", O({{"x", R("http://sim/a.json#/definitions/d")}})}}); w.docs.push_back({"", false, root});
        serve("http://sim/a.json", O({{"definitions", O({{"d", O({{"$id", J::str("sub/e.json")}, {"properties", O({{"q", R("http://sim/sub/e.json#/definitions/x")}})}, {"definitions", O({{"x", E(2)}})}})}})}}));
    } else {
        J y = E(1); y.set("$id", J::str("y.json"));
        root = O({{"properties", O({{"x", O({{"$id", J::str("http://other.sim/x.json")}, {"properties", O({{"q", R("y.json")}})}})}})}, {"definitions", O({{"y", y}})}}); w.docs.push_back({"", false, root});
        serve("http://other.sim/y.json", E(2));
    }
    w.log();
    const Lib *lib = pickLib(); const void *r = lib->make(root); Net n(lib, w); SchemaParser p(SchemaParser::kDraft7); Schema sc; where("build");
    Outcome o = guarded([&](Outcome &) { lib->populate(p, r, sc, &n.f, &n.g); }); bool wrong = o.threw(); evaluated();
    for (int k = 1; k <= 2 && !wrong; k++) { J x = wrap(kind == 2 ? O({{"q", J::integer(k)}}) : J::integer(k)); const void *d = lib->make(x); Outcome v = freshValidate(Options(), lib, sc, d); lib->destroy(d); evaluated(); if (v.verdict != (k == 2)) wrong = true; }
    if (wrong && second) violation("relative-id-not-found", "in the fetched document http://sim/a.json, the embedded schema sub/e.json cannot refer to itself as http://sim/sub/e.json: " + o.text());
    if (wrong && kind == 2) violation("embedded-key-clash", "two subschemas of an embedded schema are taken for one because it is parsed both in place and by its identifier");
    if (wrong) violation("wrong-scope-for-relative-id", "the reference y.json inside the embedded document http://other.sim/x.json enforces the schema with the identifier y.json in the outer document, which has another base, instead of http://other.sim/y.json");
    lib->destroy(r);
}
void runC05() {
    if (chance(5)) { embeddedScopes(); return; }
    where("setup"); Cfg c = pickGraph(); c.errors = choose(3) != 0; c.docs = choose(5); c.pureCycles = choose(5) == 0;
    Setup s(c); Facts f = s.w.analyse(); if (f.rootLocalCycle || f.keyClash) return;
    ev("model: %s %s", f.mustFail ? "must fail" : f.mayFail ? "may fail" : "must succeed", f.why.c_str());
    auto p = newParser(s); int rounds = 1 + (int)choose(3);
    for (int r = 0; r <= rounds; r++) {
        bool last = r == rounds; Net n(s.lib, s.w); bool disabled = false, half = false;
        if (!last) switch (choose(7)) {
        case 0: n.failAt = when(s.w, 4); faultPlanned("fetch-null"); break;
        case 1: n.throwAt = when(s.w, 4); n.throwKind = (int)choose(kThrowTypes); faultPlanned("fetch-throws"); break;
        case 2: disabled = true; faultPlanned("fetch-disabled"); break;
        case 3: { for (auto &d : s.w.served) if (choose(2)) n.down.insert(d.first); faultPlanned("fetch-null"); break; }
        case 4: half = choose(3) == 0; if (half) faultPlanned("no-release-function"); break;
        default: break; }
        where("build %d", r); Schema sc; Outcome o;
        if (half) { o = guarded([&](Outcome &) { s.lib->populate(*p, s.root, sc, &n.f, nullptr); }); faultFired("no-release-function"); if (!o.threw()) violation("half-enabled", "building with a fetch function but no release function succeeded"); continue; }
        o = build(s, *p, sc, disabled ? nullptr : &n);
        ev("build %d -> %s (%u fetches)", r, o.threw() ? o.what.c_str() : "success", n.total); evaluated();
        if (f.refs) nontrivial();
        sig(mix(f.refs * 64 + f.remoteRefs, mix(o.kind, n.total)));
        if (n.failed && !o.threw()) violation("fetch-failure-ignored", "a fetch that the build asked for failed, but building the schema succeeded");
        if (n.thrown && !n.rightException(o)) violation("fetch-exception-lost", "the fetch function threw, but the build ended with " + o.text());
        if (f.mustFail && !o.threw()) violation("unresolved-ignored", "a needed reference cannot be resolved (" + f.why + "), but building the schema succeeded");
        if (!f.mustFail && !f.mayFail && !n.failed && !disabled && o.threw()) violation(r ? "failure-sticks" : "spurious-failure", "all references can be resolved, but building the schema failed: " + o.text());
        if (disabled && o.threw()) faultFired("fetch-disabled");
        if (disabled && o.threw() && !f.mustFail && !f.mayFail && f.named.empty()) violation("spurious-failure", "no remote reference, but building without fetching failed: " + o.text());
        if (disabled && !o.threw()) for (auto &u : f.named) if (!s.w.localIds.count(u)) violation("unresolved-ignored", "fetching is not enabled, " + u + " is needed, but building the schema succeeded");
        if (!o.threw()) compareModel(s, sc, 4 + (last ? 6 : 0), "wrong-constraints");
    }
}
// ---------------------------------------------------------------- C12
void ladder(World &w) {      // depth n, every level referring twice to the next: linear work when each target is built once
    uint32_t n = 4 + choose(16); bool remote = choose(2); bool close = choose(2); w.cfg.draft = choose(2) ? 7 : 4; J root = J::obj(), defs = J::obj(); root.set("allOf", J::arr({[&] { J r = J::obj(); r.set("$ref", J::str(remote ? "http://sim/l0.json" : "#/definitions/l0")); return r; }()}));
    std::vector<J> lv;
    for (uint32_t i = 0; i < n; i++) {
        J x = J::obj(), p = J::obj(); std::string nx = "l" + std::to_string(i + 1 < n ? i + 1 : 0);
        J r = J::obj(); r.set("$ref", J::str(remote ? choose(2) ? "http://sim/" + nx + ".json" : nx + ".json#" : "#/definitions/" + nx));
        if (i + 1 < n || close) { p.set("a", r); J q = J::obj(); q.set("anyOf", J::arr({r, r})); p.set("b", q); x.set("properties", p); x.set("additionalProperties", r); } else { J e = J::arr(); e.push(J::integer(1)); x.set("enum", e); }
        if (remote && choose(3) == 0) x.set(w.idkw(), J::str("http://sim/l" + std::to_string(i) + ".json"));
        if (remote) lv.push_back(x); else defs.set("l" + std::to_string(i), x);
    }
    if (!remote) root.set("definitions", defs); else if (choose(2)) root.set(w.idkw(), J::str("http://sim/root.json"));
    w.docs.push_back({"", false, root});
    for (size_t i = 0; i < lv.size(); i++) { std::string u = "http://sim/l" + std::to_string(i) + ".json"; w.docs.push_back({u, true, lv[i]}); w.served[u] = &w.docs.back(); }
}
void runC12() {
    where("setup"); Cfg c = pickGraph(); c.pureCycles = choose(3) != 0; c.rootRef = choose(3) == 0; c.ids = choose(2); c.docs = choose(5); c.errors = choose(8) == 0;
    std::unique_ptr<Setup> sp; bool lad = choose(5) == 0;
    if (lad) { Cfg tiny; tiny.docs = 0; sp.reset(new Setup(tiny)); sp->w.docs.clear(); sp->w.served.clear(); sp->w.localIds.clear(); ladder(sp->w); sp->w.log(); sp->lib->destroy(sp->root); sp->root = sp->lib->make(sp->w.docs[0].j); }
    else sp.reset(new Setup(c));
    Setup &s = *sp; Facts f = s.w.analyse(); if (f.keyClash) return;
    if (f.rootLocalCycle && choose(4)) return;     // recorded finding: keep a few
    ev("model: %s %s refs=%u", f.mustFail ? "must fail" : f.mayFail ? "may fail" : "must succeed", f.why.c_str(), f.refs);
    auto p = newParser(s); Net n(s.lib, s.w);
    if (choose(5) == 0) { n.failAt = when(s.w, 3); faultPlanned("fetch-null"); }
    where(f.rootLocalCycle ? "building [root-local-cycle]" : "building"); Schema sc; Outcome o = build(s, *p, sc, &n);
    ev("build -> %s (%u fetches, %llu allocations)", o.threw() ? o.what.c_str() : "success", n.total, (unsigned long long)heap::allocCount()); evaluated();
    if (f.pureCycle || lad || f.refs > 2) nontrivial();
    sig(mix(f.refs, mix(f.pureCycle, mix(n.total, o.kind))));
    if (n.total > f.named.size() + 0u) violation("too-many-fetches", fmt("%u fetches, but the references name only %zu documents", n.total, f.named.size()));
    if (f.pureCycle && !f.mayFail && !o.threw()) violation("pure-cycle-accepted", "the needed references form a cycle without any constraint, but building the schema succeeded");
    if (!f.mustFail && !f.mayFail && !n.failed && o.threw()) violation("recursive-rejected", "every cycle passes through a constraint, but building the schema failed: " + o.text());
    if (o.kind == Outcome::Unknown || o.kind == Outcome::Odd) violation("exception-type", o.text());
    if (!o.threw()) compareModel(s, sc, 2, "wrong-constraints");
}
#define REAL "schema parser, references, schema registry, document cache, schema, constraints, adapters and JSON libraries"
#define STUB "the network: fetch and release callbacks served from an in-memory world; operator new/delete (fault seam)"
Registrar a({"C03", runC03, "worlds of 1-5 documents referring to each other, built one to three times with one parser under fetch, callback and allocation faults; released documents are destroyed at once", REAL, STUB});
Registrar b({"C04", runC04, "worlds of documents with differently spelled references, content changing after every fetch, fetch faults; two builds with one parser", REAL, STUB});
Registrar c({"C05", runC05, "worlds of documents with resolvable and unresolvable references, built under fetch faults and again without; verdicts compared with an independent resolver and evaluator", REAL, STUB});
Registrar d({"C12", runC12, "worlds of documents with reference cycles of every kind and doubling ladders; work bounded by a budget derived from the size of the documents", REAL, STUB});
}
} // namespace sim
