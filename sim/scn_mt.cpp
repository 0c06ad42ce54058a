// C01 and C02: threads under the simulated scheduler.
#include "case.hpp"
#include "mt.hpp"

namespace sim {
namespace {
using std::string; using std::vector;

struct VOp { const Lib *lib; size_t doc; bool own, fresh; uint64_t failAt, failN; };
struct VPlan { Options opt; vector<VOp> ops; };
struct Docs { const Lib *lib; vector<const void *> nat; };

VPlan pickOps(const Case &c, const vector<Docs> &docs, bool faults) {
    VPlan p; p.opt = c.opt; if (choose(3) == 0) p.opt.collect = !p.opt.collect; if (choose(4) == 0) p.opt.strict = !p.opt.strict;
    uint32_t n = 1 + chooseLog(8); bool mixed = choose(3) == 0; size_t l = choose((uint32_t)docs.size());
    for (uint32_t i = 0; i < n; i++) {
        VOp o; if (mixed) l = choose((uint32_t)docs.size());
        o.lib = docs[l].lib; o.doc = choose((uint32_t)c.docs.size()); o.own = choose(3) == 0; o.fresh = choose(3) == 0; o.failAt = o.failN = 0;
        if (faults && choose(3) == 0) { o.failAt = chooseLog(400); o.failN = 1 + chooseLog(3); faultPlanned("allocation"); }
        p.ops.push_back(o);
    }
    return p;
}
// the same code runs inside a simulated thread and, for reference, alone
vector<Outcome> validateAll(const VPlan &p, const valijson::Schema &s, const Case &c, const vector<Docs> &docs, bool faults, unsigned *fired) {
    vector<Outcome> out; std::unique_ptr<AnyValidator> v;
    for (auto &o : p.ops) {
        Options opt = p.opt; opt.strong = p.opt.strong && o.lib->strong();
        if (!v || o.fresh || v->opt.strong != opt.strong) v.reset(new AnyValidator(opt));
        const void *d = nullptr; for (auto &x : docs) if (x.lib == o.lib) d = x.nat[o.doc];
        const void *mine = o.own ? o.lib->make(c.docs[o.doc]) : nullptr;
        valijson::ValidationResults r;
        bool arm = faults && o.failN;
        if (arm) { heap::Plan f; f.from = o.failAt; f.count = o.failN; heap::arm(f); }
        Outcome res = doValidate(*v, o.lib, s, mine ? mine : d, opt.collect ? &r : nullptr);
        if (arm) { heap::disarm(); *fired += (unsigned)heap::firedCount(); }
        if (mine) o.lib->destroy(mine);
        out.push_back(res);
    }
    return out;
}
void compare(const char *cls, unsigned t, const VPlan &p, const vector<Outcome> &got, const vector<Outcome> &want, const Case &c) {
    for (size_t i = 0; i < want.size(); i++) {
        evaluated();
        if (got[i].same(want[i])) continue;
        if (p.ops[i].failN && got[i].threw()) continue;
        violation(cls, fmt("thread %u, validation %zu of document %s with %s: %s among other threads, but %s alone", t, i, dump(c.docs[p.ops[i].doc]).c_str(), p.ops[i].lib->name(), got[i].text().c_str(), want[i].text().c_str()));
    }
}
void logOps(unsigned t, const VPlan &p) {
    string s = fmt("thread %u validates:", t);
    for (auto &o : p.ops) s += fmt(" %s/doc%zu%s%s", o.lib->name(), o.doc, o.own ? "/own copy" : "", o.fresh ? "/new validator" : "") + (o.failN ? fmt("/allocation %llu fails", (unsigned long long)o.failAt) : "");
    ev("%s (collect=%d strict=%d)", s.c_str(), p.opt.collect, p.opt.strict);
}
void finishStats(const mt::Stats &s) {
    ev("schedule %016llx: %llu access points, %llu switches, %llu blocked", (unsigned long long)s.schedule, (unsigned long long)s.points, (unsigned long long)s.switches, (unsigned long long)s.blocked);
    faultPlanned("preemption", (unsigned)s.switches); faultFired("preemption", (unsigned)s.switches);
    faultPlanned("blocked on initialisation", (unsigned)s.blocked); faultFired("blocked on initialisation", (unsigned)s.blocked);
    if (s.switches > 1) nontrivial();
}
vector<Docs> makeDocs(const Case &c) {
    vector<Docs> v;
    for (auto l : libs()) { Docs d; d.lib = l; for (auto &x : c.docs) d.nat.push_back(l == c.lib ? l->make(x) : l->make(l->strong() ? x : toWeak(x))); v.push_back(d); }
    for (size_t i = 0; i < v.size(); i++) if (v[i].lib == c.lib) std::swap(v[0], v[i]);
    return v;
}

void runC01() {
    const Lib *l = pickLib(); Case::Want w; w.big = 24; w.scale = 15; w.custom = false; w.badPatterns = choose(3) == 0; w.allFormats = true; w.simRegex = false; w.docs = 3;
    Case c(l, w);
    valijson::Schema s; { auto p = c.parser(); Outcome o = c.build(*p, s); if (o.threw()) { R->status = kSkipped; finish(); } }
    bool hot = choose(4) == 3, faults = choose(3) == 0; ev("first use in this process: %d", !hot);
    vector<Docs> docs = makeDocs(c);
    unsigned n = 2 + choose(3); vector<VPlan> plans; bool same = choose(4) == 0;
    for (unsigned i = 0; i < n; i++) { if (i && same) plans.push_back(plans[0]); else plans.push_back(pickOps(c, docs, faults && choose(2))); logOps(i + 1, plans.back()); }
    unsigned dummy = 0; vector<vector<Outcome>> want(n);
    if (hot) for (unsigned i = 0; i < n; i++) want[i] = validateAll(plans[i], s, c, docs, false, &dummy);
    vector<vector<Outcome>> got(n); vector<unsigned> fired(n, 0); vector<std::function<void()>> bodies;
    for (unsigned i = 0; i < n; i++) bodies.push_back([&, i] { got[i] = validateAll(plans[i], s, c, docs, true, &fired[i]); });
    where("threads validating");
    mt::Stats st = mt::run(bodies);
    where("validating alone");
    for (unsigned i = 0; i < n; i++) { if (!hot) want[i] = validateAll(plans[i], s, c, docs, false, &dummy); compare("verdict-differs", i + 1, plans[i], got[i], want[i], c); if (fired[i]) faultFired("allocation", fired[i]); }
    for (unsigned i = 0; i < n; i++) for (auto &o : got[i]) ev("thread %u: %s", i + 1, o.text().c_str());
    finishStats(st);
}

// ------------------------------------------------------------------ C02
struct BPlan { size_t src; bool own, sharedRemotes; unsigned downAt; uint64_t failAt, failN; bool again; VPlan v; };
struct BOut { Outcome first, second; vector<string> fetched; vector<Outcome> verdicts; };
struct Remote { string uri; const void *nat; };

BOut buildAll(const BPlan &p, const Case &c, const vector<Remote> &remotes, const vector<Docs> &docs, bool faults, unsigned *fired) {
    BOut out; const Lib *lib = c.lib; unsigned n = 0; vector<const void *> mineLive;
    Lib::Fetch f = [&](const string &u) -> const void * {
        heap::Harness h; out.fetched.push_back(u); if (p.downAt && ++n == p.downAt) return nullptr;
        if (p.sharedRemotes) { for (auto &r : remotes) if (r.uri == u) return r.nat; return nullptr; }
        for (auto &d : c.srv.docs) if (d.first == u) return lib->make(d.second);
        return nullptr; };
    Lib::Free g = [&](const void *d) { heap::Harness h; if (!p.sharedRemotes) lib->destroy(d); };
    const void *mine = p.own ? lib->make(c.root) : nullptr;
    std::unique_ptr<valijson::Schema> s; 
    for (int k = 0; k < (p.again ? 2 : 1); k++) {
        auto parser = c.parser(); s.reset(new valijson::Schema);
        bool arm = faults && p.failN && k == 0;
        if (arm) { heap::Plan fp; fp.from = p.failAt; fp.count = p.failN; heap::arm(fp); }
        Outcome o = guarded([&](Outcome &) { heap::LibCall lc; lib->populate(*parser, mine ? mine : c.src, *s, &f, &g); });
        if (arm) { heap::disarm(); *fired += (unsigned)heap::firedCount(); }
        (k ? out.second : out.first) = o;
        if (o.threw()) s.reset();
    }
    if (s) { unsigned x = 0; out.verdicts = validateAll(p.v, *s, c, docs, false, &x); }
    if (mine) lib->destroy(mine);
    return out;
}

void runC02() {
    Case::Want w; w.big = 24; w.scale = 15; w.custom = false; w.badPatterns = choose(3) == 0; w.allFormats = choose(2); w.docs = 2;
    unsigned nsrc = 1 + choose(2); vector<std::unique_ptr<Case>> cases; vector<vector<Remote>> remotes; vector<vector<Docs>> docs;
    for (unsigned i = 0; i < nsrc; i++) {
        cases.emplace_back(new Case(pickLib(), w)); Case &c = *cases.back(); vector<Remote> r;
        for (auto &d : c.srv.docs) r.push_back({d.first, c.lib->make(d.second)});
        remotes.push_back(r); docs.push_back(makeDocs(c));
    }
    unsigned n = 2 + choose(3), builders = n - (choose(3) == 0 ? 1 : 0); vector<BPlan> bp; bool faults = choose(3) == 0;
    for (unsigned i = 0; i < builders; i++) {
        BPlan p; p.src = choose(nsrc); p.own = choose(4) == 3; p.sharedRemotes = choose(2); p.downAt = chance(150) ? 1 + choose(3) : 0; p.failAt = p.failN = 0; p.again = choose(4) == 0;
        if (p.downAt) { faultPlanned("fetch failure"); }
        if (faults && choose(2)) { p.failAt = chooseLog(2000); p.failN = 1 + chooseLog(3); faultPlanned("allocation"); }
        p.v = pickOps(*cases[p.src], docs[p.src], false); bp.push_back(p);
        ev("thread %u builds from source %zu%s%s%s%s%s", i + 1, p.src, p.own ? ", own copy" : ", shared document", p.sharedRemotes ? ", shared remote documents" : "", p.downAt ? fmt(", fetch %u fails", p.downAt).c_str() : "",
           p.failN ? fmt(", allocation %llu fails", (unsigned long long)p.failAt).c_str() : "", p.again ? ", twice" : "");
    }
    // the others validate against a schema built before
    valijson::Schema pre; VPlan vp; vector<Outcome> vgot; bool havePre = false; unsigned dummy = 0;
    if (builders < n) { auto p = cases[0]->parser(); havePre = !cases[0]->build(*p, pre).threw(); vp = pickOps(*cases[0], docs[0], false); logOps(n, vp); }
    vector<BOut> got(builders); vector<unsigned> fired(builders, 0); vector<std::function<void()>> bodies;
    for (unsigned i = 0; i < builders; i++) bodies.push_back([&, i] { got[i] = buildAll(bp[i], *cases[bp[i].src], remotes[bp[i].src], docs[bp[i].src], true, &fired[i]); });
    if (havePre) bodies.push_back([&] { unsigned x = 0; vgot = validateAll(vp, pre, *cases[0], docs[0], false, &x); });
    where("threads building");
    mt::Stats st = mt::run(bodies);
    where("building alone");
    for (unsigned i = 0; i < builders; i++) {
        const Case &c = *cases[bp[i].src]; BOut want = buildAll(bp[i], c, remotes[bp[i].src], docs[bp[i].src], false, &dummy); BOut &g = got[i];
        if (bp[i].downAt) { bool hit = want.fetched.size() >= bp[i].downAt; if (hit) faultFired("fetch failure"); }
        evaluated(); bool failed = bp[i].failN && g.first.threw() && !g.first.same(want.first);
        if (fired[i]) faultFired("allocation", fired[i]);
        if (!failed && !g.first.same(want.first)) violation("build-differs", fmt("thread %u: building %s among other threads, but %s alone", i + 1, g.first.text().c_str(), want.first.text().c_str()));
        if (failed && !bp[i].again) continue;
        if (bp[i].failN && fired[i]) { if (failed) { g.fetched.clear(); want.fetched.clear(); if (bp[i].downAt) continue; } }
        if (!g.second.same(want.second)) violation("build-differs", fmt("thread %u, second build: %s among other threads, but %s alone", i + 1, g.second.text().c_str(), want.second.text().c_str()));
        if (g.fetched != want.fetched) { string s; for (auto &u : g.fetched) s += " " + u; s += " instead of"; for (auto &u : want.fetched) s += " " + u; violation("fetches-differ", fmt("thread %u fetched%s", i + 1, s.c_str())); }
        if (g.verdicts.size() != want.verdicts.size()) violation("build-differs", fmt("thread %u: a schema exists among other threads %d, alone %d", i + 1, !g.verdicts.empty(), !want.verdicts.empty()));
        compare("constraints-differ", i + 1, bp[i].v, g.verdicts, want.verdicts, c);
    }
    if (havePre) compare("verdict-differs", n, vp, vgot, validateAll(vp, pre, *cases[0], docs[0], false, &dummy), *cases[0]);
    for (unsigned i = 0; i < builders; i++) ev("thread %u: %s, %zu fetches, %zu verdicts", i + 1, got[i].first.text().c_str(), got[i].fetched.size(), got[i].verdicts.size());
    finishStats(st);
}
#define REAL "validator, visitor, constraints, schema, parser, references, adapters, the standard library's regular expressions and containers, real threads with real thread-local storage, header-only JSON libraries"
#define STUB "thread scheduling, local-static guards, mutexes, read-write locks, call_once, condition variables and the heap (simulator); network (in-memory)"
Registrar a({"C01", runC01, "2-4 threads validate shared or own documents of five JSON libraries against one shared schema; preemption at any memory access, at every use of a local static, lock or atomic", REAL, STUB});
Registrar b({"C02", runC02, "2-4 threads build schemas from shared source documents and shared or own remote documents, others validate; preemption at any memory access, fetch and allocation failures", REAL, STUB});
}
} // namespace sim
