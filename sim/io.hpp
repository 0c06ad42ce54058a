// Load-from-file helpers of one JSON library, and the simulated disk they read from.
#pragma once
#include <string>
#include <vector>
#include "json.hpp"
namespace sim {
struct Loader {
    virtual ~Loader() {}
    virtual const char *name() const = 0;
    virtual bool weak() const { return false; }      // scalars are kept as text
    virtual bool yaml() const { return false; }
    virtual bool noexc() const { return false; }     // compiled without VALIJSON_USE_EXCEPTIONS
    virtual bool raw() const { return false; }       // the document is the text itself
    virtual std::string rawGet(const void *) const { return ""; }
    virtual bool reference(const std::string &) const { return false; } // the library's own parser accepts this text
    virtual void *make() const = 0;
    virtual void destroy(void *) const = 0;
    virtual bool load(void *doc, const std::string &path) const = 0;
    virtual J get(const void *doc) const = 0;
};
const std::vector<const Loader *> &loaders();
template <class A> J fromAdapter(const A &a) {
    if (a.isObject()) { J o = J::obj(); for (const auto m : a.getObject()) o.set(m.first, fromAdapter(m.second)); return o; }
    if (a.isArray()) { J r = J::arr(); for (const auto v : a.getArray()) r.push(fromAdapter(v)); return r; }
    if (a.isString()) return J::str(a.getString());
    if (a.isBool()) return J::boolean(a.getBool());
    if (a.isInteger()) return J::integer(a.getInteger());
    if (a.isDouble()) { double d = a.getDouble(); return d == (double)(int64_t)d ? J::integer((int64_t)d) : J::dbl(d); }
    return J();
}
template <class Doc, class Adapter> struct LoaderT : Loader {
    void *make() const override { return new Doc(); }
    void destroy(void *p) const override { delete static_cast<Doc *>(p); }
    bool load(void *d, const std::string &p) const override;
    J get(const void *d) const override { const Adapter a(*static_cast<const Doc *>(d)); return fromAdapter(a); }
};
}
#if VALIJSON_USE_EXCEPTIONS
#define SIM_NOEXC false
#else
#define SIM_NOEXC true
#endif
#define SIM_LOADER(NAME, DOC, ADAPTER, WEAK, YAML) namespace sim { namespace { struct L : LoaderT<DOC, ADAPTER> { const char *name() const override { return #NAME; } bool weak() const override { return WEAK; } bool yaml() const override { return YAML; } bool noexc() const override { return SIM_NOEXC; } \
    bool load(void *d, const std::string &p) const override { return valijson::utils::loadDocument(p, *static_cast<DOC *>(d)); } } inst; } const Loader *io_##NAME() { return &inst; } }
