#include <nlohmann/json.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrNl {
    using Doc = nlohmann::json; using Adapter = valijson::adapters::NlohmannJsonAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "nlohmann"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b); case J::Int: return Doc(j.i); case J::Dbl: return Doc(j.d); case J::Str: return Doc(j.s);
        case J::Arr: { Doc d = Doc::array(); for (auto &v : j.a) d.push_back(conv(v)); return d; }
        case J::Obj: { Doc d = Doc::object(); for (auto &p : j.o) d[p.first] = conv(p.second); return d; }
        default: return Doc(); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) {
        if (d.is_object() || d.is_array()) for (auto &v : d) scribble(v);
        else if (d.is_string()) { auto &s = d.get_ref<std::string &>(); for (auto &c : s) c = '#'; s += "!"; }
        else d = -987654321;
    }
};
static LibT<TrNl> inst;
const Lib *lib_nlohmann() { return &inst; }
}
