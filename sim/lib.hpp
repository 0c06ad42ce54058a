// Type-erased access to valijson through one JSON library.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include "json.hpp"
#include "vj.hpp"

namespace sim {

struct SimRegex;   // pattern engine under simulator control (vj.hpp)

struct Lib {
    virtual ~Lib() {}
    virtual const char *name() const = 0;
    virtual bool strong() const { return true; }          // strongly typed documents
    virtual void *make(const J &) const = 0;               // new document
    virtual void destroy(const void *) const = 0;
    virtual void scribble(void *) const = 0;               // overwrite every value in place
    using Fetch = std::function<const void *(const std::string &)>;
    using Free = std::function<void(const void *)>;
    virtual void populate(valijson::SchemaParser &, const void *doc, valijson::Schema &, const Fetch *, const Free *) const = 0;
    virtual bool validate(valijson::Validator &, const valijson::Subschema &, const void *doc, valijson::ValidationResults *) const = 0;
    virtual bool validate(valijson::ValidatorT<SimRegex> &, const valijson::Subschema &, const void *doc, valijson::ValidationResults *) const = 0;
    // frozen copies: freeze+clone, then compare with another document
    virtual valijson::adapters::FrozenValue *freeze(const void *doc) const = 0;
    virtual void withAdapter(const J &, const std::function<void(const valijson::adapters::Adapter &)> &) const = 0;
    virtual void pointer(const void *doc, const std::string &ptr, const std::function<void(const valijson::adapters::Adapter &)> &) const = 0;   // the node a JSON pointer names
    virtual bool equals(const valijson::adapters::FrozenValue &, const void *doc, bool strict) const = 0;
};

const std::vector<const Lib *> &libs();

} // namespace sim
