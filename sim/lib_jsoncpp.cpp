#include <json/json.h>
#include <valijson/adapters/jsoncpp_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrJc {
    using Doc = Json::Value; using Adapter = valijson::adapters::JsonCppAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "jsoncpp"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b); case J::Int: return Doc((Json::Int64)j.i); case J::Dbl: return Doc(j.d); case J::Str: return Doc(j.s);
        case J::Arr: { Doc d(Json::arrayValue); for (auto &v : j.a) d.append(conv(v)); return d; }
        case J::Obj: { Doc d(Json::objectValue); for (auto &p : j.o) d[p.first] = conv(p.second); return d; }
        default: return Doc(); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) {
        if (d.isObject() || d.isArray()) for (auto &v : d) scribble(v);
        else d = Doc("#####!");
    }
};
static LibT<TrJc> inst;
const Lib *lib_jsoncpp() { return &inst; }
}
