#include <boost/json.hpp>
#include <boost/json/src.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrBj {
    using Doc = boost::json::value; using Adapter = valijson::adapters::BoostJsonAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "boostjson"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b); case J::Int: return Doc(j.i); case J::Dbl: return Doc(j.d); case J::Str: return Doc(boost::json::string(j.s));
        case J::Arr: { boost::json::array a; for (auto &v : j.a) a.push_back(conv(v)); return Doc(std::move(a)); }
        case J::Obj: { boost::json::object o; for (auto &p : j.o) o[p.first] = conv(p.second); return Doc(std::move(o)); }
        default: return Doc(nullptr); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) {
        if (auto *o = d.if_object()) for (auto &p : *o) scribble(p.value());
        else if (auto *a = d.if_array()) for (auto &v : *a) scribble(v);
        else if (auto *s = d.if_string()) { for (auto &c : *s) c = '#'; s->append("!"); }
        else d = (std::int64_t)-987654321;
    }
};
static LibT<TrBj> inst;
const Lib *lib_boostjson() { return &inst; }
}
