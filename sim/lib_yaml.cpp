#include <yaml-cpp/yaml.h>
#include <valijson/adapters/yaml_cpp_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrYm {
    using Doc = YAML::Node; using Adapter = valijson::adapters::YamlCppAdapter;
    static constexpr bool strong = false;
    static const char *name() { return "yamlcpp"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b ? "true" : "false"); case J::Int: return Doc(std::to_string(j.i)); case J::Dbl: return Doc(sim::dump(j)); case J::Str: return Doc(j.s);
        case J::Arr: { Doc d(YAML::NodeType::Sequence); for (auto &v : j.a) d.push_back(conv(v)); return d; }
        case J::Obj: { Doc d(YAML::NodeType::Map); for (auto &p : j.o) d.force_insert(p.first, conv(p.second)); return d; }
        default: return Doc(YAML::NodeType::Null); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) {
        if (d.IsMap()) for (auto p : d) { Doc c = p.second; scribble(c); }
        else if (d.IsSequence()) for (auto p : d) { Doc c = p; scribble(c); }
        else d = "#####!";
    }
};
static LibT<TrYm> inst;
const Lib *lib_yaml() { return &inst; }
}
