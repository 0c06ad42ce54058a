// One generated schema with its remote documents and instances, in either of two styles.
#pragma once
#include "graph.hpp"
namespace sim {
struct Case {
    const Lib *lib; int draft = 7; bool custom = false; J root; Server srv; std::vector<J> docs; std::vector<const void *> nat; void *src = nullptr;
    Options opt;
    struct Want { bool custom = true, patterns = true, badPatterns = false, graphs = true, simRegex = false, forceCustom = false, forcePatterns = false, allFormats = false, envTexts = false; unsigned docs = 3, big = 12, scale = 100; };   // big: one case in so many is large in one dimension
    Case(const Lib *l, const Want &w);
    ~Case();
    Case(const Case &) = delete;
    std::unique_ptr<valijson::SchemaParser> parser() const;
    Outcome build(valijson::SchemaParser &p, valijson::Schema &s, const void *from = nullptr);
    Outcome check(const valijson::Schema &s, size_t i) const { return freshValidate(opt, lib, s, nat[i]); }
    std::vector<Outcome> all2(const valijson::Schema &s, bool collect) const { Options o = opt; o.collect = collect; std::vector<Outcome> v; for (size_t i = 0; i < nat.size(); i++) v.push_back(freshValidate(o, lib, s, nat[i])); return v; }
    std::vector<Outcome> all(const valijson::Schema &s) const { std::vector<Outcome> v; for (size_t i = 0; i < nat.size(); i++) v.push_back(check(s, i)); return v; }
};
void sameAll(const char *cls, const Case &c, const std::vector<Outcome> &want, const valijson::Schema &s, const char *when);
}
