#define PICOJSON_USE_INT64
#include <picojson.h>
#include <valijson/adapters/picojson_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrPj {
    using Doc = picojson::value; using Adapter = valijson::adapters::PicoJsonAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "picojson"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b); case J::Int: return Doc(j.i); case J::Dbl: return Doc(j.d); case J::Str: return Doc(j.s);
        case J::Arr: { picojson::array a; for (auto &v : j.a) a.push_back(conv(v)); return Doc(a); }
        case J::Obj: { picojson::object o; for (auto &p : j.o) o[p.first] = conv(p.second); return Doc(o); }
        default: return Doc(); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) {
        if (d.is<picojson::object>()) for (auto &p : d.get<picojson::object>()) scribble(p.second);
        else if (d.is<picojson::array>()) for (auto &v : d.get<picojson::array>()) scribble(v);
        else if (d.is<std::string>()) { for (auto &c : d.get<std::string>()) c = '#'; d.get<std::string>() += "!"; }
        else d = Doc((int64_t)-987654321);
    }
};
static LibT<TrPj> inst;
const Lib *lib_picojson() { return &inst; }
}
