// C13: reuse leaves no memory.  C15: exceptions from callbacks pass through.  C16: callbacks may use the library again.
#include "case.hpp"
#include <functional>
#include <cstring>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace valijson;
namespace sim {
namespace {

void drain(ValidationResults &r) { ValidationResults::Error e; while (r.popError(e)) {} }

// ---------------------------------------------------------------- C13
// Verdict of a validation in a process that has done nothing else (only the exit status comes back).
int virginVerdict(const Case &c, const Options &o, size_t i, bool &threw) {
    pid_t p = fork();
    if (p == 0) { Outcome r; Outcome b; { Case &cc = const_cast<Case &>(c); auto ps = cc.parser(); Schema s; b = cc.build(*ps, s); if (!b.threw()) { AnyValidator v(o); r = guarded([&](Outcome &x) { ValidationResults q; x.verdict = v.run(c.lib, s, c.nat[i], o.collect ? &q : nullptr); }); } } _exit(b.threw() ? 2 : r.threw() ? 3 : r.verdict ? 1 : 0); }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) != p || !WIFEXITED(st)) internalError("reference process failed");
    threw = WEXITSTATUS(st) == 3; return WEXITSTATUS(st);
}
void runC13() {
    where("setup"); unsigned nc = 2 + choose(2); std::vector<std::unique_ptr<Case>> cs; Case::Want w; w.badPatterns = true; w.simRegex = choose(3) != 0; w.docs = 4;
    const Lib *common = choose(2) ? pickLib() : nullptr;
    for (unsigned k = 0; k < nc; k++) { w.scale = choose(4) ? 30 : 100; cs.emplace_back(new Case(common ? common : pickLib(), w)); }
    Options opt = cs[0]->opt; bool anyWeak = false; for (auto &c : cs) anyWeak = anyWeak || !c->lib->strong(); if (anyWeak) opt.strong = false; for (auto &c : cs) c->opt = opt;
    std::vector<const void *> pristine; std::vector<std::unique_ptr<adapters::FrozenValue>> frozen;   // sources as they were
    for (auto &c : cs) { for (auto d : c->nat) frozen.emplace_back(c->lib->freeze(d)); frozen.emplace_back(c->lib->freeze(c->src)); }
    // parsers are shared between the cases of one draft
    std::map<int, std::unique_ptr<SchemaParser>> parsers; for (auto &c : cs) if (!parsers[c->draft + (c->custom ? 100 : 0)]) parsers[c->draft + (c->custom ? 100 : 0)] = c->parser();
    auto parserFor = [&](Case &c) -> SchemaParser & { return *parsers[c.draft + (c.custom ? 100 : 0)]; };
    struct Slot { std::unique_ptr<Schema> s; bool ok = false; std::vector<Outcome> want, want2[2]; Outcome built; };
    std::vector<Slot> sl(nc); std::vector<std::vector<int>> virgin(nc);
    bool useVirgin = choose(8) == 0, early = choose(2);
    if (useVirgin) { where("reference processes"); for (unsigned k = 0; k < nc; k++) for (size_t i = 0; i < cs[k]->nat.size(); i++) { bool t; virgin[k].push_back(choose(4) ? -1 : virginVerdict(*cs[k], opt, i, t)); } }
    auto fresh = [&](unsigned k) { auto p = cs[k]->parser(); Schema s; sl[k].built = cs[k]->build(*p, s); sl[k].want.clear(); if (!sl[k].built.threw()) { for (int z = 0; z < 2; z++) sl[k].want2[z] = cs[k]->all2(s, z); sl[k].want = sl[k].want2[opt.collect]; } };
    if (early) for (unsigned k = 0; k < nc; k++) fresh(k);
    heap::ledgerReset(); heap::setBudget(5000000);
    std::vector<std::unique_ptr<AnyValidator>> vs; for (unsigned k = 0; k < 2; k++) { heap::LibCall c; vs.emplace_back(new AnyValidator(opt)); }
    std::unique_ptr<ValidationResults> keep; { heap::LibCall c; keep.reset(new ValidationResults); }
    struct Obs { unsigned k; size_t i; Outcome o; bool collect, fired; }; std::vector<Obs> obs;
    unsigned n = 6 + choose(16), kinds = 0; uint64_t path = 0;
    auto build = [&](unsigned k, bool compare) {
        Case &c = *cs[k]; { heap::LibCall lc; sl[k].s.reset(); sl[k].s.reset(new Schema); }
        where("building case %u with a reused parser", k); Outcome o = c.build(parserFor(c), *sl[k].s); sl[k].ok = !o.threw();
        ev("case %u built with the shared parser: %s", k, o.threw() ? "rejected" : "ok");
        if (compare) { if (sl[k].want.empty() && !sl[k].built.threw()) { if (!early) fresh(k); } evaluated(); if (o.threw() != sl[k].built.threw()) violation("build-history", fmt("case %u with a reused parser: %s; with a new parser: %s", k, o.text().c_str(), sl[k].built.text().c_str())); }
    };
    for (unsigned k = 0; k < nc; k++) build(k, early);
    for (unsigned q = 0; q < n; q++) {
        unsigned k = choose(nc); Case &c = *cs[k]; uint32_t op = choose(12); path = mix(path, op * 4 + k);
        bool quiet = false;
        auto run = [&](AnyValidator &v, size_t i, bool collect, bool mayFault) {
            if (!sl[k].ok) return; Outcome o; size_t skip = 0; std::string before; ValidationResults *r = collect ? keep.get() : nullptr;
            if (r) { if (choose(3)) { heap::Harness h; drain(*r); } before = errorsText(*r); skip = before.size(); }
            o = doValidate(v, c.lib, *sl[k].s, c.nat[i], r); uint64_t fired = mayFault ? heap::firedCount() : 0;
            if (o.kind == Outcome::Returned && r) { if (o.errors.compare(0, skip, before) != 0) violation("results-disturbed", "entries already in the result list changed during validation"); o.errors = o.errors.substr(skip); }
            if (r && o.threw()) { heap::Harness h; drain(*r); }
            if (!quiet) ev("step %u: case %u doc %zu collect=%d%s -> %s", q, k, i, collect, fired ? " with failing allocations" : "", o.threw() ? "exception" : o.verdict ? "valid" : "invalid");
            if (fired) { faultFired("alloc-failure", (unsigned)fired); if (o.threw()) return; }
            if (quiet && !obs.empty() && obs.back().k == k && obs.back().i == i && obs.back().collect == collect && obs.back().fired == (fired > 0) && obs.back().o.same(o)) return;
            obs.push_back({k, i, o, collect, fired > 0});
        };
        // the same call many times, with memory that fails at ever later points
        if (op < 8 && choose(100) == 99) {
            unsigned again = 20 + (choose(2) ? choose(400) : chooseLog(400)); size_t i = choose((uint32_t)c.nat.size()); bool collect = choose(2), faults = op > 4; unsigned z = choose(2), step = 1 + choose(3); where("history step %u: %u calls", q, again);
            ev("step %u: case %u doc %zu collect=%d, %u times%s", q, k, i, collect, again, faults ? " with failing allocations" : ""); quiet = true; kinds |= 16; if (faults) faultPlanned("alloc-failure-sweep");
            for (unsigned r = 0; r < again; r++) { if (faults) { heap::Plan pl; pl.from = r * step; pl.count = 1; heap::arm(pl); } run(*vs[z], i, collect, faults); if (faults) { heap::disarm(); if (r == 0 && heap::firedCount()) faultFired("alloc-failure-sweep"); } }
            quiet = false; continue;
        }
        where("history step %u op %u", q, op);
        switch (op) {
        case 0: case 1: case 2: case 3: case 4: case 5: run(*vs[choose(2)], choose((uint32_t)c.nat.size()), choose(3) != 0, false); break;
        case 6: case 7: { heap::Plan pl; pl.from = chooseLog(300); pl.count = choose(4) ? 1 : ~0ull >> 1; faultPlanned("alloc-failure"); heap::arm(pl); run(*vs[choose(2)], choose((uint32_t)c.nat.size()), choose(2), true); heap::disarm(); kinds |= 1; break; }
        case 8: build(k, true); kinds |= 2; break;
        case 9: { faultPlanned("network-down"); c.srv.down = true; size_t f0 = c.srv.fetched.size(); { std::unique_ptr<Schema> t; { heap::LibCall lc; t.reset(new Schema); } Outcome o = c.build(parserFor(c), *t); ev("case %u built while the network is down: %s", k, o.threw() ? "rejected" : "ok"); heap::LibCall lc; t.reset(); } c.srv.down = false; if (c.srv.fetched.size() > f0) { faultFired("network-down"); kinds |= 4; } break; }
        case 10: { heap::Plan pl; pl.from = chooseLog(1500); pl.count = choose(4) ? 1 : ~0ull >> 1; faultPlanned("alloc-failure"); std::unique_ptr<Schema> t; { heap::LibCall lc; t.reset(new Schema); } heap::arm(pl); Outcome o = c.build(parserFor(c), *t); if (heap::firedCount()) { faultFired("alloc-failure", (unsigned)heap::firedCount()); kinds |= 8; } heap::disarm(); ev("case %u built with failing allocations: %s", k, o.threw() ? "rejected" : "ok"); heap::LibCall lc; t.reset(); break; }
        default: { unsigned z = choose(2); ev("validator %u replaced", z); heap::LibCall lc; vs[z].reset(); vs[z].reset(new AnyValidator(opt)); break; }
        }
    }
    where("comparing the history with fresh instances");
    if (!early) for (unsigned k = 0; k < nc; k++) fresh(k);
    unsigned inval = 0, thrown = 0;
    for (auto &o : obs) {
        evaluated(); Outcome want = sl[o.k].want2[o.collect][o.i]; if (want.threw()) thrown++; else if (!want.verdict) inval++;
        if (!o.o.same(want)) violation(o.fired ? "wrong-result-under-fault" : "history-dependent", fmt("case %u document %s: %s in the history, %s with fresh instances", o.k, dump(cs[o.k]->docs[o.i]).c_str(), o.o.text().c_str(), want.text().c_str()));
        if (useVirgin && o.collect == opt.collect && virgin[o.k][o.i] >= 0 && virgin[o.k][o.i] != (want.threw() ? 3 : want.verdict ? 1 : 0)) violation("process-history", fmt("case %u document %s: %s in this process, %d in a new one", o.k, dump(cs[o.k]->docs[o.i]).c_str(), want.text().c_str(), virgin[o.k][o.i]));
    }
    for (unsigned k = 0; k < nc; k++) if (sl[k].ok) sameAll("schema-changed", *cs[k], sl[k].want, *sl[k].s, "the reused schema, fresh validator");
    size_t f = 0; for (auto &c : cs) { for (size_t i = 0; i <= c->nat.size(); i++, f++) { evaluated(); const void *d = i < c->nat.size() ? c->nat[i] : c->src; if (!c->lib->equals(*frozen[f], d, true)) violation("document-changed", "a document or schema source was modified"); } }
    if (obs.size() > 3) { nontrivial(); sig(mix(path, kinds)); }
    { heap::LibCall lc; std::vector<std::unique_ptr<AnyValidator>>().swap(vs); keep.reset(); sl.clear(); parsers.clear(); }
    checkLeaks("a history of reused objects"); steps(n);
}

// ---------------------------------------------------------------- C15
enum Cb { kFetch, kMake, kClone, kValidate, kRegexCtor, kRegexSearch, kCbs };
const char *kCbName[] = {"throw-fetch", "throw-builder", "throw-clone", "throw-constraint", "throw-regex-compile", "throw-regex-search"};
struct Trap { unsigned mask = 0; uint64_t at = ~0ull, seen = 0; uint32_t type = 0; int id = 0; int firedKind = -1; uint64_t per[kCbs] = {}; } T;
void hit(Cb k) {
    T.per[k]++; if (!(T.mask & (1u << k))) return;
    if (T.seen++ == T.at) { T.firedKind = k; faultFired(kCbName[k]); throwSim(T.type, T.id); }
}
void runC15() {
    where("setup"); Case::Want w; w.docs = 4; w.simRegex = true; w.forceCustom = true; w.forcePatterns = choose(2); w.badPatterns = false; Case c(pickLib(), w); if (choose(4)) c.opt.simRegex = true;
    regexCtorHook = [](const std::string &) { heap::Harness h; hit(kRegexCtor); }; regexSearchHook = [](const std::string &) { heap::Harness h; hit(kRegexSearch); };
    customMakeHook = [] { heap::Harness h; hit(kMake); }; customValidateHook = [](const adapters::Adapter &) { heap::Harness h; hit(kValidate); }; customCloneHook = [] { heap::Harness h; hit(kClone); };
    c.srv.onFetch = [](Server &, const std::string &) { hit(kFetch); };
    // reference without exceptions
    Outcome rb; std::vector<Outcome> want, want2[2]; uint64_t per[kCbs] = {};
    auto reference = [&] { auto p = c.parser(); Schema s; T = Trap(); rb = c.build(*p, s); for (int k = 0; k < kCbs; k++) per[k] = T.per[k]; T = Trap(); if (!rb.threw()) { for (int z = 0; z < 2; z++) want2[z] = c.all2(s, z); want = want2[c.opt.collect]; } for (int k = kValidate; k < kCbs; k++) per[k] = (T.per[k] + c.nat.size() * 2 - 1) / (c.nat.size() * 2); T = Trap(); };
    reference(); heap::ledgerReset(); heap::setBudget(5000000); customAlive = 0;
    bool fns = choose(2); auto p = c.parser(); std::unique_ptr<AnyValidator> v; std::unique_ptr<ValidationResults> keep; { heap::LibCall lc; v.reset(new AnyValidator(c.opt)); keep.reset(new ValidationResults); }
    std::unique_ptr<Schema> s; bool built = false; unsigned n = 4 + choose(10), fired = 0; uint64_t path = 0;
    auto newSchema = [&] { heap::LibCall lc; s.reset(); s.reset(fns ? new Schema(heap::allocFn(0), heap::freeFn(0)) : new Schema); };
    auto verdictOf = [&](const char *call, const Outcome &o, const Outcome &ref) {
        evaluated();
        if (T.firedKind >= 0) { fired++; path = mix(path, (uint64_t)T.firedKind * 64 + T.at);
            bool same = o.is(T.type, T.id);
            if (!same) violation(o.threw() ? "exception-changed" : "exception-swallowed", fmt("%s: the %s callback threw exception %d of type %u, the caller got: %s", call, kCbName[T.firedKind], T.id, T.type, o.text().c_str()));
        } else {
            bool eq = strncmp(call, "build", 5) == 0 ? ref.threw() == o.threw() : o.same(ref);
            if (!eq) violation("differs-after-exception", fmt("%s gives %s, expected %s (%u exceptions passed before)", call, o.text().c_str(), ref.text().c_str(), fired)); }
        T.mask = 0;
    };
    auto arm = [&](unsigned mask) {
        T = Trap(); T.id = (int)choose(1000); if (choose(5) == 4) return;
        for (int k = 0; k < kCbs; k++) if (!per[k]) mask &= ~(1u << k);
        unsigned m = mask & (1u + choose(63)); if (!m) m = mask; if (!m) return;
        uint64_t cnt = 0; for (int k = 0; k < kCbs; k++) if (m & (1u << k)) cnt += per[k];
        T.mask = m; T.at = choose((uint32_t)std::min<uint64_t>(cnt, 200)); T.type = choose(kThrowTypes); for (int k = 0; k < kCbs; k++) if (m & (1u << k)) faultPlanned(kCbName[k]); };
    auto noLive = [&](const char *when) { if (!c.srv.live.empty()) violation("document-leak", fmt("%zu fetched documents not released %s", c.srv.live.size(), when)); };
    for (unsigned q = 0; q < n; q++) {
        bool doBuild = !built || choose(4) == 0; where("step %u", q);
        unsigned again = choose(30) == 29 ? doBuild ? 3 + chooseLog(60) : 20 + (choose(2) ? choose(900) : chooseLog(900)) : 0;      // the same failing call many times
        if (again) {
            size_t i = choose((uint32_t)c.nat.size()); bool collect = choose(3) != 0; if (doBuild) arm((1u << kFetch) | (1u << kMake) | (1u << kClone)); else arm((1u << kValidate) | (1u << kRegexCtor) | (1u << kRegexSearch));
            Trap t = T; unsigned f0 = fired; ev("step %u: %s doc %zu, %u times with a callback that throws at call %lld", q, doBuild ? "build" : "validate", i, again, (long long)t.at); faultPlanned("callback-exception-repeated");
            for (unsigned r = 0; r < again; r++) {
                T = t; Outcome o; if (doBuild) { newSchema(); o = c.build(*p, *s); built = !o.threw(); } else { drain(*keep); o = doValidate(*v, c.lib, *s, c.nat[i], collect ? keep.get() : nullptr); }
                verdictOf(doBuild ? "build" : "validate", o, doBuild ? rb : want2[collect][i]); if (doBuild) noLive("after a build");
            }
            if (fired > f0 + 1) faultFired("callback-exception-repeated"); continue;
        }
        if (doBuild) {
            newSchema(); arm((1u << kFetch) | (1u << kMake) | (1u << kClone));
            Outcome o = c.build(*p, *s); ev("step %u: build, trap %d -> %s", q, T.firedKind, o.threw() ? "exception" : "ok");
            verdictOf("build", o, rb); built = !o.threw(); noLive("after a build");
            if (!built && choose(2)) { heap::LibCall lc; s.reset(); for (int k = 0; k < heap::kPairs; k++) if (heap::pairLive(k)) violation("memfn-leak", "blocks of the schema's memory functions outlive the schema"); }
        } else {
            size_t i = choose((uint32_t)c.nat.size()); arm((1u << kValidate) | (1u << kRegexCtor) | (1u << kRegexSearch)); bool collect = choose(3) != 0;
            if (choose(6) == 0) { heap::LibCall lc; v.reset(); v.reset(new AnyValidator(c.opt)); }
            drain(*keep); Outcome o = doValidate(*v, c.lib, *s, c.nat[i], collect ? keep.get() : nullptr);
            ev("step %u: validate doc %zu collect=%d, trap %d -> %s", q, i, collect, T.firedKind, o.threw() ? "exception" : o.verdict ? "valid" : "invalid");
            verdictOf("validate", o, want2[collect][i]);
        }
    }
    T = Trap();
    where("afterwards");
    if (built) sameAll("differs-after-exception", c, want, *s, "after exceptions from callbacks");
    newSchema(); Outcome o = c.build(*p, *s); verdictOf("build afterwards", o, rb); if (!o.threw()) sameAll("differs-after-exception", c, want, *s, "schema built after exceptions"); noLive("at the end");
    if (fired) { nontrivial(); sig(path); }
    { heap::LibCall lc; s.reset(); v.reset(); keep.reset(); p.reset(); }
    for (int k = 0; k < heap::kPairs; k++) if (heap::pairLive(k)) violation("memfn-leak", "blocks of the schema's memory functions outlive the schema");
    checkLeaks("exceptions from callbacks"); steps(n);
}

// ---------------------------------------------------------------- C16
struct World16 { std::vector<std::unique_ptr<Case>> cs; std::vector<std::unique_ptr<SchemaParser>> ps; std::vector<std::unique_ptr<Schema>> ss; std::vector<Outcome> rb; std::vector<std::vector<Outcome>> want; int depth = 0, maxDepth = 2; unsigned budget = 0, nested = 0; uint64_t path = 0; } *W;
void same16(const char *what, unsigned k, const Outcome &o, const Outcome &ref, bool build) {
    evaluated(); bool eq = build ? o.threw() == ref.threw() : o.same(ref);
    if (!eq) violation("nested-differs", fmt("%s of case %u at depth %d gives %s, run alone it gives %s", what, k, W->depth, o.text().c_str(), ref.text().c_str()));
}
void buildOne(unsigned k, SchemaParser &p) {
    std::unique_ptr<Schema> s; { heap::LibCall lc; s.reset(new Schema); }
    struct Up { bool &d; bool was; explicit Up(bool &x) : d(x), was(x) { d = false; } ~Up() { d = was; } } up(W->cs[k]->srv.down);
    ev("depth %d: build case %u", W->depth, k); Outcome o = W->cs[k]->build(p, *s); same16("build", k, o, W->rb[k], true);
    if (!o.threw()) for (size_t i = 0; i < W->cs[k]->nat.size(); i++) { AnyValidator v(W->cs[k]->opt); ValidationResults r; Outcome x = doValidate(v, W->cs[k]->lib, *s, W->cs[k]->nat[i], W->cs[k]->opt.collect ? &r : nullptr); same16("validation of the schema built", k, x, W->want[k][i], false); }
    heap::LibCall lc; s.reset();
}
void validateOne(unsigned k) {
    if (!W->ss[k]) return; Case &c = *W->cs[k]; size_t i = choose((uint32_t)c.nat.size());
    ev("depth %d: validate doc %zu of case %u", W->depth, i, k); std::unique_ptr<AnyValidator> v; std::unique_ptr<ValidationResults> r; { heap::LibCall lc; v.reset(new AnyValidator(c.opt)); r.reset(new ValidationResults); }
    Outcome o = doValidate(*v, c.lib, *W->ss[k], c.nat[i], c.opt.collect ? r.get() : nullptr); same16("validation", k, o, W->want[k][i], false);
    heap::LibCall lc; v.reset(); r.reset();
}
struct Spoil {};
// called from any callback
void inner(bool building) {
    if (!W || W->depth >= W->maxDepth || W->budget == 0 || choose(3) == 0) return;
    heap::Harness h; W->depth++; W->budget--; W->nested++; struct D { ~D() { W->depth--; } } d;
    unsigned k = choose((uint32_t)W->cs.size()); uint32_t op = choose(6); W->path = mix(W->path, (uint64_t)W->depth * 100 + op * 10 + k);
    auto saved = std::string(R->where);
    switch (op) {
    case 0: case 1: where("nested build of case %u", k); buildOne(k, *W->ps[k]); break;                     // same parser as the outer build if k is the outer case
    case 2: case 3: case 4: where("nested validation of case %u", k); validateOne(k); break;
    default: {                                                                            // a nested build that fails
        where("nested build of case %u without network", k); Case &c = *W->cs[k]; bool was = c.srv.down; c.srv.down = true; faultPlanned("nested-network-down"); size_t f0 = c.srv.fetched.size();
        { std::unique_ptr<Schema> s; { heap::LibCall lc; s.reset(new Schema); } Outcome o = c.build(*W->ps[k], *s); ev("depth %d: build of case %u without network: %s", W->depth, k, o.threw() ? "exception" : "ok"); heap::LibCall lc; s.reset(); }
        if (c.srv.fetched.size() > f0) faultFired("nested-network-down"); c.srv.down = was; break; } }
    (void)building; where("%s", saved.c_str());
}
void runC16() {
    where("setup"); World16 w; unsigned nc = 1 + choose(3); Case::Want want; want.docs = 3; want.simRegex = true; want.forceCustom = true; want.forcePatterns = choose(3) == 0;
    const Lib *common = choose(3) ? pickLib() : nullptr;
    for (unsigned k = 0; k < nc; k++) w.cs.emplace_back(new Case(common ? common : pickLib(), want));
    if (choose(2)) for (auto &c : w.cs) c->opt.simRegex = true;
    for (auto &c : w.cs) { auto p = c->parser(); std::unique_ptr<Schema> s(new Schema); w.rb.push_back(c->build(*p, *s)); w.want.push_back(w.rb.back().threw() ? std::vector<Outcome>() : c->all(*s)); if (w.rb.back().threw()) s.reset(); w.ss.push_back(std::move(s)); }
    heap::ledgerReset(); customAlive = 0; heap::setBudget(5000000);
    for (auto &c : w.cs) w.ps.push_back(c->parser());
    // one parser may serve several cases
    for (unsigned k = 1; k < nc; k++) if (w.cs[k]->draft == w.cs[0]->draft && choose(2)) w.ps[k].reset();
    std::vector<std::unique_ptr<SchemaParser>> own; std::vector<SchemaParser *> use; for (unsigned k = 0; k < nc; k++) use.push_back(w.ps[k] ? w.ps[k].get() : w.ps[0].get());
    for (unsigned k = 1; k < nc; k++) if (!w.ps[k]) { w.ps[k] = nullptr; }
    // keep ps[k] dereferenceable: own the distinct parsers elsewhere
    for (unsigned k = 0; k < nc; k++) { if (w.ps[k]) own.push_back(std::move(w.ps[k])); w.ps[k].reset(use[k]); }
    W = &w; w.maxDepth = 1 + (int)choose(3); w.budget = 4 + choose(20);
    customMakeHook = [] { inner(true); }; customCloneHook = [] { inner(true); }; customValidateHook = [](const adapters::Adapter &) { inner(false); };
    regexSearchHook = [](const std::string &) { inner(false); }; regexCtorHook = [](const std::string &) { inner(false); };
    for (auto &c : w.cs) c->srv.onFetch = [](Server &, const std::string &) { inner(true); };
    unsigned n = 2 + choose(5);
    for (unsigned q = 0; q < n; q++) { unsigned k = choose(nc); where("outer step %u", q); if (choose(2)) buildOne(k, *w.ps[k]); else validateOne(k); w.budget += 4; }
    if (w.nested) { nontrivial(); sig(w.path); }
    W = nullptr; customMakeHook = customCloneHook = nullptr; customValidateHook = nullptr; regexCtorHook = regexSearchHook = nullptr;
    where("afterwards"); for (unsigned k = 0; k < nc; k++) if (w.ss[k]) sameAll("nested-differs", *w.cs[k], w.want[k], *w.ss[k], "after nested use");
    for (auto &c : w.cs) if (!c->srv.live.empty()) violation("document-leak", "fetched documents not released after nested builds");
    faultFired("nested-call", w.nested);
    for (auto &p : w.ps) p.release(); { heap::LibCall lc; own.clear(); }
    checkLeaks("nested use of the library"); steps(n + w.nested);
}
#define STUB "network (fetch/release callbacks), custom constraint and builder, operator new/delete (fault seams); in part of the runs the pattern engine"
Registrar r13({"C13", runC13, "histories of 6-21 validations and builds over 2-3 schemas with shared validators, result lists, parsers and schemas, with malformed patterns, failing allocations and an unreachable network in between; each step compared with fresh instances, in part of the runs with fresh processes",
    "validator with its pattern cache, parser, schema, adapters of all ten JSON libraries", STUB});
Registrar r15({"C15", runC15, "histories of 4-13 builds and validations in which the k-th call of chosen callbacks throws a std or non-std exception; objects reused afterwards",
    "validator, parser, schema, constraints, adapters", STUB});
Registrar r16({"C16", runC16, "builds and validations whose callbacks (fetch, builder, clone, custom constraint, pattern engine) start further builds and validations, up to three levels deep, some of them failing",
    "validator, parser, schema, constraints, adapters", STUB});
}
} // namespace sim
