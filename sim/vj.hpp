// valijson headers used by scenario code, plus callback types under simulator control.
#pragma once
#include <cstdlib>
#include <string>
#include <valijson/adapters/std_string_adapter.hpp>
#include <valijson/constraints/concrete_constraints.hpp>
#include <valijson/constraint_builder.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>

namespace sim {

// Hooks invoked by the pattern engine; scenarios may make them throw.
extern void (*regexCtorHook)(const std::string &pattern);
extern void (*regexSearchHook)(const std::string &text);

// A tiny pattern engine: "^abc" prefix, "abc$" suffix, otherwise substring;
// pattern containing "(" without ")" is malformed.
struct SimRegex {
    explicit SimRegex(const std::string &p) : pat(p), alive(0x5afe5afe) {
        if (regexCtorHook) regexCtorHook(p);
    }
    SimRegex(const SimRegex &o) : pat(o.pat), alive(o.alive) {}
    SimRegex(SimRegex &&o) : pat(std::move(o.pat)), alive(o.alive) {}
    SimRegex &operator=(const SimRegex &o) { pat = o.pat; alive = o.alive; return *this; }
    SimRegex &operator=(SimRegex &&o) { pat = std::move(o.pat); alive = o.alive; return *this; }
    ~SimRegex() { alive = 0xdeaddead; }
    static bool search(const std::string &s, const SimRegex &r) {
        if (regexSearchHook) regexSearchHook(s);
        if (r.alive != 0x5afe5afe) abort();
        std::string p = r.pat; bool pre = false, suf = false;
        if (!p.empty() && p[0] == '^') { pre = true; p.erase(0, 1); }
        if (!p.empty() && p.back() == '$') { suf = true; p.pop_back(); }
        if (pre && suf) return s == p;
        if (pre) return s.compare(0, p.size(), p) == 0;
        if (suf) return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
        return s.find(p) != std::string::npos;
    }
    std::string pat; unsigned alive;
};

} // namespace sim
