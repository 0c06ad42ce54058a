// C06: a built schema does not depend on anything it was built from, and can be moved.
// C09: custom memory functions are paired exactly.
#include "case.hpp"
using namespace valijson;
namespace sim {
namespace {

void runC06() {
    where("setup"); const Lib *lib = pickLib(); Case::Want w; w.docs = 4; w.simRegex = true; Case c(lib, w);
    heap::ledgerReset();
    // twin: built from an untouched copy of the sources; the reference for all later verdicts
    const void *src2 = lib->make(c.root); auto p2 = c.parser(); Schema twin; Outcome t = c.build(*p2, twin, src2);
    bool fns = choose(2); auto p = c.parser(); std::unique_ptr<Schema> s(fns ? new Schema(heap::allocFn(0), heap::freeFn(0)) : new Schema);
    where("build"); Outcome b = c.build(*p, *s);
    if (t.threw() != b.threw()) violation("build-differs", "two builds from equal sources: " + t.text() + " / " + b.text());
    if (b.threw()) { ev("rejected: %s", b.what.c_str()); lib->destroy(src2); return; }
    std::vector<Outcome> want; bool lateRef = choose(2); if (!lateRef) want = c.all(twin);
    if (choose(3)) { std::vector<Outcome> first = c.all(*s); if (want.empty()) want = c.all(twin); sameAll("build-differs", c, want, *s, "right after building"); }
    std::vector<std::unique_ptr<Schema>> junk; bool scribbled = false, destroyed = false; unsigned n = 2 + choose(8), kinds = 0;
    for (unsigned k = 0; k < n; k++) {
        uint32_t op = choose(10); where("history step %u op %u", k, op);
        switch (op) {
        case 0: case 1: if (c.src && !scribbled) { ev("source overwritten"); lib->scribble(c.src); scribbled = true; kinds |= 1; faultFired("source-overwritten"); } break;
        case 2: if (c.src) { ev("source destroyed"); if (!scribbled) lib->scribble(c.src); lib->destroy(c.src); c.src = nullptr; destroyed = true; kinds |= 2; faultFired("source-destroyed"); } break;
        case 3: if (p) { ev("parser destroyed"); p.reset(); kinds |= 4; faultFired("parser-destroyed"); } break;
        case 4: case 5: { ev("moved by construction"); std::unique_ptr<Schema> m(new Schema(std::move(*s))); if (choose(2)) junk.push_back(std::move(s)); s = std::move(m); kinds |= 8; faultFired("moved"); break; }
        case 6: { ev("moved by assignment to a new schema"); std::unique_ptr<Schema> m(choose(2) ? new Schema : new Schema(heap::allocFn(1), heap::freeFn(1))); *m = std::move(*s); if (choose(2)) junk.push_back(std::move(s)); s = std::move(m); kinds |= 16; faultFired("moved"); break; }
        case 7: { ev("moved by assignment over another built schema"); Case::Want v; v.docs = 1; v.graphs = false; Case o(lib, v); auto q = o.parser(); std::unique_ptr<Schema> m(choose(2) ? new Schema : new Schema(heap::allocFn(2), heap::freeFn(2))); (void)o.build(*q, *m); *m = std::move(*s);
            if (choose(2)) junk.push_back(std::move(s)); s = std::move(m); kinds |= 32; faultFired("moved"); break; }
        case 8: if (!junk.empty()) { uint32_t i = choose((uint32_t)junk.size()); if (choose(2)) { ev("moved-from schema destroyed"); junk.erase(junk.begin() + i); } else { ev("moved-from schema assigned to"); *junk[i] = std::move(*s); std::swap(junk[i], s); } kinds |= 64; faultFired("moved"); } break;
        default: { if (want.empty()) want = c.all(twin); sameAll("schema-changed", c, want, *s, "during the history"); break; }
        }
    }
    if (c.src && choose(2)) { lib->scribble(c.src); lib->destroy(c.src); c.src = nullptr; kinds |= 2; faultFired("source-destroyed"); }
    if (choose(2)) junk.clear();
    if (choose(2)) p.reset();
    if (kinds) { nontrivial(); sig(mix(kinds, hashStr(lib->name()))); }
    if (want.empty()) want = c.all(twin);
    sameAll("schema-changed", c, want, *s, "at the end of the history"); (void)destroyed;
    { heap::LibCall lc; s.reset(); junk.clear(); }
    for (int k = 0; k < heap::kPairs; k++) if (heap::pairLive(k)) violation("memfn-leak", fmt("%zu blocks of the schema's memory functions outlive the schema", heap::pairLive(k)));
    lib->destroy(src2); steps(n);
}

void runC09() {
    where("setup"); const Lib *lib = pickLib(); heap::pairReset();
    std::vector<std::unique_ptr<Case>> cs; unsigned nc = 1 + choose(2); for (unsigned i = 0; i < nc; i++) { Case::Want w; w.docs = 1; cs.emplace_back(new Case(lib, w)); }
    std::vector<std::unique_ptr<SchemaParser>> ps; for (auto &c : cs) ps.push_back(c->parser());
    struct Slot { std::unique_ptr<Schema> s; int pair = -1; int built = -1; };      // pair: whose functions the object currently uses; built: case it holds
    std::vector<Slot> sl(2 + choose(3)); unsigned n = 4 + choose(12), moves = 0, faults = 0; uint64_t path = 0;
    auto heldBy = [&](int k) { for (auto &x : sl) if (x.s && x.pair == k) return true; return false; };
    auto checkNone = [&](const char *when) { evaluated(); for (int k = 0; k < heap::kPairs; k++) if (!heldBy(k) && heap::pairLive(k)) violation("outlives-schema", fmt("%zu blocks from memory function pair %d are still allocated %s, though no schema uses that pair", heap::pairLive(k), k, when)); };
    std::vector<std::vector<Outcome>> ref(cs.size());
    for (size_t i = 0; i < cs.size(); i++) { Schema r; auto p = cs[i]->parser(); if (!cs[i]->build(*p, r).threw()) ref[i] = cs[i]->all(r); }
    heap::ledgerReset();
    for (unsigned k = 0; k < n; k++) {
        size_t i = choose((uint32_t)sl.size()), j = choose((uint32_t)sl.size()); uint32_t op = choose(9); where("step %u op %u", k, op); path = mix(path, op * 16 + i * 4 + j);
        if (!sl[i].s) {
            int pr = (int)choose(heap::kPairs + 1) - 1; heap::PairPlan pp; if (choose(4) == 0) { pp.on = true; pp.from = 0; pp.count = 1; faultPlanned("memfn-null"); }
            heap::armPair(pp); Outcome o = guarded([&](Outcome &) { heap::LibCall c; sl[i].s.reset(pr < 0 ? new Schema : new Schema(heap::allocFn(pr), heap::freeFn(pr))); });
            if (heap::pairFired()) { faultFired("memfn-null"); faults++; } heap::armPair({}); sl[i].pair = pr; sl[i].built = -1;
            ev("slot %zu created with pair %d%s", i, pr, o.threw() ? " failed" : ""); if (o.threw()) { sl[i].s.reset(); checkNone("after a failed construction"); }
            continue;
        }
        switch (op) {
        case 0: case 1: case 2: {
            if (sl[i].built == -2 || sl[i].built >= 0) { if (choose(2)) break; }
            size_t ci = choose((uint32_t)cs.size()); heap::Plan pl; heap::PairPlan pp; bool g = false, q = false;
            switch (choose(5)) { case 0: g = true; pl.from = chooseLog(1500); pl.count = choose(3) ? 1 : ~0ull >> 1; faultPlanned("alloc-failure"); break;
                case 1: case 2: q = true; pp.on = true; pp.from = choose(30); pp.count = choose(3) ? 1 : 100000; faultPlanned("memfn-null"); break; default: break; }
            if (g) heap::arm(pl); heap::armPair(pp);
            Outcome o = cs[ci]->build(*ps[ci], *sl[i].s);
            uint64_t f1 = g ? heap::firedCount() : 0, f2 = q ? heap::pairFired() : 0; heap::disarm(); heap::armPair({});
            if (f1) { faultFired("alloc-failure", (unsigned)f1); faults++; } if (f2) { faultFired("memfn-null", (unsigned)f2); faults++; }
            ev("slot %zu: build case %zu -> %s", i, ci, o.threw() ? "exception" : "success");
            if (sl[i].built == -1 && !o.threw()) sl[i].built = (int)ci; else sl[i].built = -2;
            break; }
        case 3: case 4: if (i != j) { ev("slot %zu moved into a new schema in slot %zu", i, j); heap::LibCall c; sl[j].s.reset(); sl[j].s.reset(new Schema(std::move(*sl[i].s))); sl[j].pair = sl[i].pair; sl[j].built = sl[i].built; sl[i].built = -3; moves++; if (choose(2)) sl[i].s.reset(); } break;
        case 5: case 6: if (sl[j].s && i != j) { ev("slot %zu assigned to slot %zu", i, j); heap::LibCall c; *sl[j].s = std::move(*sl[i].s); std::swap(sl[i].pair, sl[j].pair); std::swap(sl[i].built, sl[j].built); moves++; } break;
        case 7: { ev("slot %zu destroyed", i); { heap::LibCall c; sl[i].s.reset(); } checkNone("after destroying a schema"); break; }
        case 8: if (sl[i].built >= 0 && !ref[(size_t)sl[i].built].empty()) sameAll("schema-changed", *cs[(size_t)sl[i].built], ref[(size_t)sl[i].built], *sl[i].s, "between moves"); break;
        }
        if (sl[i].s && sl[i].built == -3) { heap::LibCall c; sl[i].s.reset(); checkNone("after destroying a moved-from schema"); }
    }
    while (true) { std::vector<size_t> left; for (size_t i = 0; i < sl.size(); i++) if (sl[i].s) left.push_back(i); if (left.empty()) break; size_t i = pick(left); { heap::LibCall c; sl[i].s.reset(); } checkNone("after destroying a schema"); }
    { heap::LibCall c; ps.clear(); }
    for (int k = 0; k < heap::kPairs; k++) { evaluated(); if (heap::pairLive(k)) violation("outlives-schema", fmt("%zu blocks from memory function pair %d were never released", heap::pairLive(k), k)); }
    uint64_t used = 0; for (int k = 0; k < heap::kPairs; k++) used += heap::pairAllocs(k);
    if (used && (moves || faults)) { nontrivial(); sig(path); }
    cs.clear(); size_t nl = 0; (void)nl; checkLeaks("a history of schemas with several memory functions"); steps(n);
}
#define STUB "network (fetch/release callbacks), operator new/delete and the schema's memory functions (fault seams)"
Registrar r6({"C06", runC06, "schema built from documents that are then overwritten and destroyed, moved by every route, parser and builders destroyed; verdicts compared with a twin built from untouched sources",
    "schema parser, schema, constraints, frozen values, adapters of all ten bundled JSON libraries", STUB});
Registrar r9({"C09", runC09, "histories of two to four schemas over three pairs of memory functions: construction, builds with failures, moves, assignments, destruction in any order; exact ledger per pair",
    "schema, subschemas, constraints, schema parser, adapters", STUB});
}
} // namespace sim
