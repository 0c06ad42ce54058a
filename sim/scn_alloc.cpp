// C07: allocation failure while building.  C08: allocation failure while validating.
#include "big.hpp"
using namespace valijson;
namespace sim {

namespace {
struct Built { std::unique_ptr<Schema> s; Outcome o; };

struct Work {
    const Lib *lib; GenCfg cfg; Gen g; J root; Server srv; bool custom; std::vector<J> docs; std::vector<const void *> nat; const void *rootDoc = nullptr;
    Options opt;
    explicit Work(bool customKw, std::initializer_list<const char *> names = {}) : lib(pickLib(names)), cfg(pickCfg(customKw)), g(cfg), custom(cfg.custom) {
        root = g.schema(); srv.lib = lib; spread(root, srv, g); opt = pickOptions(lib);
        uint32_t n = 2 + choose(3);
        if (choose(14) == 0) { srv.docs.clear(); bigCase(root, docs, cfg.draft, n, 60); if (custom && choose(2)) root.set("x-custom", J::integer(0)); }
        else for (uint32_t i = 0; i < n; i++) docs.push_back(choose(3) ? g.docFor(root, root, 4) : g.doc());
        rootDoc = lib->make(root); for (auto &d : docs) nat.push_back(lib->make(d));
        ev("lib=%s draft=%d schema=%s", lib->name(), cfg.draft, dump(root).c_str());
        for (auto &d : srv.docs) ev("remote %s = %s", d.first.c_str(), dump(d.second).c_str());
        for (auto &d : docs) ev("doc %s", dump(d).c_str());
        ev("options strong=%d strict=%d collect=%d simregex=%d", opt.strong, opt.strict, opt.collect, opt.simRegex);
    }
    ~Work() { lib->destroy(rootDoc); for (auto d : nat) lib->destroy(d); }
};

// build one schema inside library scope
Outcome build(Work &w, SchemaParser &p, Schema &s) {
    return guarded([&](Outcome &) { heap::LibCall c; w.lib->populate(p, w.rootDoc, s, &w.srv.f, &w.srv.g); });
}
std::vector<Outcome> verdicts(Work &w, const Schema &s) { std::vector<Outcome> v; for (auto d : w.nat) v.push_back(freshValidate(w.opt, w.lib, s, d)); return v; }

void runC07() {
    where("setup");
    Work w(true); heap::ledgerReset(); heap::pairReset(); heap::setBudget(3000000);
    bool useFns = choose(2); bool refFirst = choose(3) != 0; bool faultPair = useFns && choose(2);
    Outcome ref; std::vector<Outcome> refV; uint64_t total = 0, ptotal = 0;
    auto parser = [&] { heap::LibCall c; auto p = std::unique_ptr<SchemaParser>(new SchemaParser(versionOf(w.cfg.draft))); if (w.custom) p->addConstraintBuilder("x-custom", new CustomBuilder); return p; };
    auto reference = [&] {
        where("reference build");
        auto p = parser(); std::unique_ptr<Schema> s; heap::resetCount(); heap::armPair({});
        { heap::LibCall c; s.reset(useFns ? new Schema(heap::allocFn(0), heap::freeFn(0)) : new Schema); }
        ref = build(w, *p, *s); total = heap::allocCount(); ptotal = heap::pairCount();
        if (!ref.threw()) refV = verdicts(w, *s);
        if (!w.srv.live.empty()) violation("document-leak", "a fetched document was not released by a fault-free build");
        heap::LibCall c; s.reset(); p.reset();
    };
    if (refFirst) reference();
    int rounds = 1 + (int)choose(3);
    for (int r = 0; r < rounds; r++) {
        where("build under allocation faults");
        uint64_t N = refFirst ? total : 900; if (N == 0) N = 1;
        heap::Plan pl; heap::PairPlan pp; const char *kind;
        if (faultPair) { uint64_t M = refFirst ? std::max<uint64_t>(ptotal, 1) : 40; pp.on = true; pp.from = choose((uint32_t)M); pp.count = choose(3) == 0 ? 1000000 : 1 + choose(2); kind = pp.count > 3 ? "memfn-exhausted" : "memfn-null"; }
        else switch (choose(4)) {
            case 0: case 1: pl.from = choose((uint32_t)N); pl.count = 1; kind = "alloc-single"; break;
            case 2: pl.from = choose((uint32_t)N); pl.count = ~0ull >> 1; kind = "alloc-exhausted"; break;
            default: pl.from = choose((uint32_t)N); pl.count = 0; pl.permille = 1 + choose(60); kind = "alloc-random"; break; }
        faultPlanned(kind);
        auto p = parser(); std::unique_ptr<Schema> s; heap::resetCount(); Outcome o;
        size_t freed0 = w.srv.live.size();
        if (faultPair) heap::armPair(pp); else heap::arm(pl);
        o = guarded([&](Outcome &) { heap::LibCall c; s.reset(useFns ? new Schema(heap::allocFn(0), heap::freeFn(0)) : new Schema); });
        if (!o.threw()) o = build(w, *p, *s);
        uint64_t fired = faultPair ? heap::pairFired() : heap::firedCount(); heap::disarm(); heap::armPair({});
        ev("%s from=%llu fired=%llu -> %s", kind, (unsigned long long)(faultPair ? pp.from : pl.from), (unsigned long long)fired, o.threw() ? "exception" : "success");
        if (fired) { faultFired(kind, (unsigned)fired); nontrivial(); sig(mix(hashStr(kind), faultPair ? pp.from : pl.from)); }
        if (w.srv.live.size() != freed0) violation("document-leak", fmt("%zu fetched documents not released after the build ended with: %s", w.srv.live.size() - freed0, o.text().c_str()));
        if (o.kind == Outcome::Unknown || o.kind == Outcome::Odd) violation("exception-type", "the build ended with an exception that is not derived from std::exception");
        if (!o.threw()) {
            std::vector<Outcome> got = verdicts(w, *s);
            if (!refFirst && refV.empty() && r == 0) reference();
            if (ref.threw() && fired) violation("swallowed-failure", "an allocation failed and the build succeeded, though without the failure it reports: " + ref.text());
            for (size_t i = 0; i < got.size() && i < refV.size(); i++) { evaluated(); if (!got[i].same(refV[i]))
                violation("weakened-schema", fmt("%llu allocations failed, the build reported success, but document %s gives %s instead of %s", (unsigned long long)fired, dump(w.docs[i]).c_str(), got[i].text().c_str(), refV[i].text().c_str())); }
            if (fired) violation("failure-ignored", fmt("%llu allocations failed while the schema was built, but the build reported success", (unsigned long long)fired));
        }
        // the partly built schema can be moved and destroyed
        if (s && choose(4) == 0) { Schema t(std::move(*s)); heap::LibCall c; s.reset(); }
        { heap::LibCall c; s.reset(); p.reset(); }
        for (int k = 0; k < heap::kPairs; k++) if (heap::pairLive(k)) violation("memfn-leak", fmt("%zu blocks of the schema's memory functions outlive the schema (build ended with %s)", heap::pairLive(k), o.text().c_str()));
        checkLeaks("a build under allocation faults");
    }
    where("retry without faults");
    if (!refFirst && refV.empty()) reference();
    auto p = parser(); std::unique_ptr<Schema> s; { heap::LibCall c; s.reset(useFns ? new Schema(heap::allocFn(0), heap::freeFn(0)) : new Schema); }
    Outcome o = build(w, *p, *s);
    if (o.threw() != ref.threw()) violation("retry-differs", "retry gives " + o.text() + ", expected " + ref.text());
    if (!o.threw()) { auto got = verdicts(w, *s); for (size_t i = 0; i < got.size(); i++) { evaluated(); if (!got[i].same(refV[i])) violation("retry-differs", fmt("document %s: %s vs %s", dump(w.docs[i]).c_str(), got[i].text().c_str(), refV[i].text().c_str())); } }
    { heap::LibCall c; s.reset(); p.reset(); }
    checkLeaks("retry");
    steps(heap::allocCount());
}

void runC08() {
    where("setup");
    Work w(true); if (w.cfg.patterns && chance(150)) {}
    SchemaParser p(versionOf(w.cfg.draft)); if (w.custom) p.addConstraintBuilder("x-custom", new CustomBuilder);
    std::unique_ptr<Schema> s(new Schema); Outcome b = guarded([&](Outcome &) { w.lib->populate(p, w.rootDoc, *s, &w.srv.f, &w.srv.g); });
    if (b.threw()) { ev("schema rejected: %s", b.what.c_str()); return; }
    long alive0 = customAlive; customAlive = 0; (void)alive0;
    heap::ledgerReset(); heap::setBudget(5000000);
    bool cold = choose(3) == 0;
    std::vector<Outcome> ref(w.docs.size()); std::vector<uint64_t> cost(w.docs.size(), 60);
    auto reference = [&](size_t i) {
        heap::resetCount(); heap::disarm(); AnyValidator v(w.opt); ValidationResults r; ref[i] = doValidate(v, w.lib, *s, w.nat[i], w.opt.collect ? &r : nullptr); cost[i] = heap::allocCount();
    };
    if (!cold) for (size_t i = 0; i < w.docs.size(); i++) reference(i);
    struct Pend { size_t i; Outcome o; uint64_t fired; }; std::vector<Pend> pend;
    auto compare = [&](size_t i, const Outcome &o, uint64_t fired, const char *when) {
        evaluated();
        if (o.same(ref[i])) return;
        violation(fired ? "wrong-result-under-fault" : "wrong-result-after-fault", fmt("%s: document %s gives %s, fault-free result is %s", when, dump(w.docs[i]).c_str(), o.text().c_str(), ref[i].text().c_str()));
    };
    std::unique_ptr<AnyValidator> v(new AnyValidator(w.opt)); std::unique_ptr<ValidationResults> keep(new ValidationResults);
    int rounds = 2 + (int)choose(5);
    for (int r = 0; r < rounds; r++) {
        size_t i = choose((uint32_t)w.docs.size());
        if (choose(60) == 59) {      // one call after the other fails, each a little later
            unsigned again = 20 + choose(300), fails = 0; ValidationResults *res = w.opt.collect ? keep.get() : nullptr; faultPlanned("alloc-sweep"); where("a sweep of allocation failures"); bool all = choose(3) == 0;
            for (unsigned q = 0; q < again; q++) { heap::Plan pl; pl.from = q; pl.count = all ? ~0ull >> 1 : 1; heap::arm(pl); Outcome o = doValidate(*v, w.lib, *s, w.nat[i], res); uint64_t fired = heap::firedCount(); heap::disarm(); { ValidationResults::Error e; heap::Harness h; if (res) while (res->popError(e)) {} }
                fails += fired > 0; if (o.threw()) { if (o.kind == Outcome::Unknown || o.kind == Outcome::Odd) violation("exception-type", "validation ended with an exception that is not derived from std::exception"); if (!fired) pend.push_back({i, o, 0}); } else if (fired || q < 3) pend.push_back({i, o, fired}); if (!fired && q > 3) break; }
            ev("doc %zu sweep of %u: %u calls with failures", i, again, fails); if (fails) { faultFired("alloc-sweep", fails); nontrivial(); } Outcome o2 = doValidate(*v, w.lib, *s, w.nat[i], res); pend.push_back({i, o2, 0}); { ValidationResults::Error e; heap::Harness h; if (res) while (res->popError(e)) {} }
            continue; }
        if (choose(5) == 0) { heap::LibCall c; v.reset(); v.reset(new AnyValidator(w.opt)); }
        where("validate under allocation faults");
        heap::Plan pl; const char *kind; uint64_t N = std::max<uint64_t>(1, cold ? 120 : cost[i]);
        switch (choose(6)) {
        case 0: kind = "none"; break;
        case 1: case 2: case 3: pl.from = choose((uint32_t)N); pl.count = 1 + (choose(4) == 0 ? choose(3) : 0); kind = "alloc-single"; break;
        case 4: pl.from = choose((uint32_t)N); pl.count = ~0ull >> 1; kind = "alloc-exhausted"; break;
        default: pl.from = choose((uint32_t)N); pl.permille = 1 + choose(80); kind = "alloc-random"; break; }
        bool f = kind[0] != 'n'; if (f) { faultPlanned(kind); heap::arm(pl); }
        ValidationResults *res = w.opt.collect ? keep.get() : nullptr;
        Outcome o = doValidate(*v, w.lib, *s, w.nat[i], res);
        uint64_t fired = f ? heap::firedCount() : 0; heap::disarm();
        ev("doc %zu %s from=%llu fired=%llu -> %s", i, kind, (unsigned long long)pl.from, (unsigned long long)fired, o.threw() ? "exception" : o.verdict ? "valid" : "invalid");
        if (fired) { faultFired(kind, (unsigned)fired); nontrivial(); sig(mix(hashStr(kind), pl.from)); }
        if (o.threw()) {
            if (o.kind == Outcome::Unknown || o.kind == Outcome::Odd) violation("exception-type", "validation ended with an exception that is not derived from std::exception");
            if (!fired) pend.push_back({i, o, 0});   // e.g. malformed pattern: same as the fault-free outcome
        } else pend.push_back({i, o, fired});
        // memory is available again: the same objects give the right answer
        if (res) { ValidationResults::Error e; heap::Harness h; while (res->popError(e)) {} }
        where("validate again after faults");
        Outcome o2 = doValidate(*v, w.lib, *s, w.nat[i], res); pend.push_back({i, o2, 0});
        if (res) { ValidationResults::Error e; heap::Harness h; while (res->popError(e)) {} }
    }
    if (cold) for (size_t i = 0; i < w.docs.size(); i++) reference(i);
    for (auto &q : pend) if (q.fired) violation("failure-ignored", fmt("%llu allocations failed during a validation, but it ended without an exception", (unsigned long long)q.fired));
    for (auto &q : pend) compare(q.i, q.o, q.fired, q.fired ? "during failing allocations" : "with memory available");
    { heap::LibCall c; v.reset(); keep.reset(); }
    checkLeaks("validation under allocation faults");
    for (size_t i = 0; i < w.docs.size(); i++) { Outcome o = freshValidate(w.opt, w.lib, *s, w.nat[i]); compare(i, o, 0, "fresh validator afterwards"); }
    steps(heap::allocCount());
}
Registrar r7({"C07", runC07, "random schema (drafts 3/4/7, local and remote references, custom keyword) built while single, repeated, random or all later allocations fail, from the global heap or the schema's memory functions; then retried",
    "schema parser, constraints, schema, adapters and JSON libraries", "operator new/delete (fault seam over the real allocator), fetch callbacks (in-memory server)"});
Registrar r8({"C08", runC08, "random schema and documents validated while single, repeated, random or all later allocations fail, cold or warm caches, with and without result list; then validated again with the same objects",
    "validator, visitor, pattern cache, std::regex, constraints, adapters", "operator new/delete (fault seam over the real allocator)"});
}
} // namespace sim
