// Helpers shared by the sequential scenarios.
#pragma once
#include "core.hpp"
#include "gen.hpp"
#include "heap.hpp"
#include "lib.hpp"
#include <memory>
#include <stdexcept>
#include <typeinfo>

namespace sim {

// Thrown by callbacks under simulator control; identity is checked at the caller.
struct SimTag { int id, type; };
struct SimError : std::runtime_error, SimTag { explicit SimError(int i) : std::runtime_error("injected callback failure " + std::to_string(i)), SimTag{i, 0} {} };
struct SimOdd { int id; };           // not derived from std::exception
constexpr uint32_t kThrowTypes = 14;
[[noreturn]] void throwSim(uint32_t type, int id);      // an exception of one of many types, that knows its type and number

struct Outcome {
    enum Kind { Returned, StdException, BadAlloc, Sim, Odd, Unknown } kind = Returned;
    std::string what; int id = 0; int type = -1;      // for exceptions thrown by throwSim
    bool is(uint32_t t, int i) const { return type == (int)t && id == i; }
    bool verdict = false; std::string errors;      // for validation
    bool threw() const { return kind != Returned; }
    std::string text() const;
    bool same(const Outcome &o) const { return kind == o.kind && (kind == Returned ? verdict == o.verdict && errors == o.errors : id == o.id); }
};
std::string errorsText(const valijson::ValidationResults &r);

template <class F> Outcome guarded(F f) {
    Outcome o;
    try { f(o); }
    catch (const SimTag &e) { heap::Harness h; o.kind = Outcome::Sim; o.id = e.id; o.type = e.type; o.what = "injected exception " + std::to_string(e.id) + " of type " + std::to_string(e.type); }
    catch (const SimOdd &e) { heap::Harness h; o.kind = Outcome::Odd; o.id = e.id; o.type = 1; }
    catch (int i) { heap::Harness h; o.kind = Outcome::Odd; o.id = i; o.type = 2; }
    catch (const char *t) { heap::Harness h; o.kind = Outcome::Odd; o.id = atoi(t); o.type = 3; }
    catch (const std::bad_alloc &) { heap::Harness h; o.kind = Outcome::BadAlloc; o.what = "bad_alloc"; }
    catch (const std::exception &e) { heap::Harness h; o.kind = Outcome::StdException; o.what = e.what(); }
    catch (...) { heap::Harness h; o.kind = Outcome::Unknown; }
    return o;
}

struct Options { bool strong = true, strict = true, collect = true, simRegex = false; };
using VStd = valijson::Validator;
using VSim = valijson::ValidatorT<SimRegex>;

// A validator of either flavour.
struct AnyValidator {
    Options opt; std::unique_ptr<VStd> a; std::unique_ptr<VSim> b;
    explicit AnyValidator(const Options &o) : opt(o) {
        if (o.simRegex) b.reset(new VSim(o.strong ? VSim::kStrongTypes : VSim::kWeakTypes, o.strict ? VSim::kStrictDateTime : VSim::kPermissiveDateTime));
        else a.reset(new VStd(o.strong ? VStd::kStrongTypes : VStd::kWeakTypes, o.strict ? VStd::kStrictDateTime : VStd::kPermissiveDateTime));
    }
    bool run(const Lib *l, const valijson::Subschema &s, const void *d, valijson::ValidationResults *r) { return a ? l->validate(*a, s, d, r) : l->validate(*b, s, d, r); }
};

// validate as one library call
Outcome doValidate(AnyValidator &v, const Lib *l, const valijson::Subschema &s, const void *doc, valijson::ValidationResults *r);
Outcome freshValidate(const Options &o, const Lib *l, const valijson::Subschema &s, const void *doc);

// Remote documents served to fetch callbacks.
struct Server {
    const Lib *lib = nullptr;
    std::vector<std::pair<std::string, J>> docs;
    std::vector<std::string> fetched;
    const void *fetch(const std::string &u);
    Lib::Fetch f; Lib::Free g;
    void (*onFetch)(Server &, const std::string &) = nullptr; int tag = 0;
    bool down = false;      // every fetch fails
    std::vector<const void *> live; unsigned freed = 0;
    Server();
};
// A schema using remote references: definitions of the root moved to remote documents.
void spread(J &root, Server &srv, Gen &g);

valijson::SchemaParser::Version versionOf(int draft);
const Lib *pickLib(std::initializer_list<const char *> names = {});
GenCfg pickCfg(bool custom = false);
Options pickOptions(const Lib *l);

// "x-custom": n  -- value must not be a string shorter than n, nor an array/object with fewer than n members
struct CustomBuilder : valijson::ConstraintBuilder {
    valijson::constraints::Constraint *make(const valijson::adapters::Adapter &a) const override;
};
extern void (*customMakeHook)();
extern void (*customValidateHook)(const valijson::adapters::Adapter &);
extern void (*customCloneHook)();
extern long customAlive;     // live custom constraint objects

void checkLeaks(const char *when);

} // namespace sim
