#include <iostream>

#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include <valijson/utils/yaml_cpp_utils.hpp>
#include "io.hpp"
namespace sim { namespace { struct L : LoaderT<YAML::Node, valijson::adapters::YamlCppAdapter> {
    const char *name() const override { return "yaml"; } bool weak() const override { return true; } bool yaml() const override { return true; }
    bool load(void *d, const std::string &p) const override { return valijson::utils::loadDocument(p, *static_cast<YAML::Node *>(d)); }
    bool reference(const std::string &t) const override { try { YAML::Load(t); return true; } catch (...) { return false; } }
} inst; } const Loader *io_yaml() { return &inst; } }
