#pragma once
#include "lib.hpp"
#include <memory>
#include <valijson/internal/json_pointer.hpp>

namespace sim {

// Tr: Doc, Adapter, make(J)->Doc*, scribble(Doc*)
template <class Tr> struct LibT : Lib {
    using Doc = typename Tr::Doc; using Adapter = typename Tr::Adapter;
    const char *name() const override { return Tr::name(); }
    bool strong() const override { return Tr::strong; }
    void *make(const J &j) const override { return Tr::make(j); }
    void destroy(const void *p) const override { delete static_cast<const Doc *>(p); }
    void scribble(void *p) const override { Tr::scribble(*static_cast<Doc *>(p)); }
    void populate(valijson::SchemaParser &parser, const void *doc, valijson::Schema &schema, const Fetch *fetch, const Free *fr) const override {
        using FP = valijson::SchemaParser::FunctionPtrs<Adapter>;
        const Adapter a(*static_cast<const Doc *>(doc));
        if (!fetch) { parser.populateSchema(a, schema); return; }
        // captures too large for the small-object buffer of std::function: copies allocate
        struct { const Fetch *f; uintptr_t pad[3]; } cf{fetch, {1, 2, 3}}; struct { const Free *f; uintptr_t pad[3]; } cg{fr, {1, 2, 3}};
        typename FP::FetchDoc f = [cf](const std::string &u) { return static_cast<const Doc *>((*cf.f)(u)); };
        typename FP::FreeDoc g = [cg](const Doc *d) { (*cg.f)(d); };
        if (!fr) { parser.populateSchema(a, schema, f); return; }
        parser.populateSchema(a, schema, f, g);
    }
    bool validate(valijson::Validator &v, const valijson::Subschema &s, const void *doc, valijson::ValidationResults *r) const override {
        const Adapter a(*static_cast<const Doc *>(doc)); return v.validate(s, a, r);
    }
    bool validate(valijson::ValidatorT<SimRegex> &v, const valijson::Subschema &s, const void *doc, valijson::ValidationResults *r) const override {
        const Adapter a(*static_cast<const Doc *>(doc)); return v.validate(s, a, r);
    }
    valijson::adapters::FrozenValue *freeze(const void *doc) const override { const Adapter a(*static_cast<const Doc *>(doc)); return a.freeze(); }
    void withAdapter(const J &j, const std::function<void(const valijson::adapters::Adapter &)> &f) const override { std::unique_ptr<Doc> d(static_cast<Doc *>(Tr::make(j))); const Adapter a(*d); f(a); }
    void pointer(const void *doc, const std::string &ptr, const std::function<void(const valijson::adapters::Adapter &)> &f) const override { const Adapter a(*static_cast<const Doc *>(doc)); f(valijson::internal::json_pointer::resolveJsonPointer(a, ptr)); }
    bool equals(const valijson::adapters::FrozenValue &f, const void *doc, bool strict) const override { const Adapter a(*static_cast<const Doc *>(doc)); return f.equalTo(a, strict); }
};

} // namespace sim
