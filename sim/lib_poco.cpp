#include <Poco/JSON/Object.h>
#include <Poco/JSON/Array.h>
#include <valijson/adapters/poco_json_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrPo {
    using Doc = Poco::Dynamic::Var; using Adapter = valijson::adapters::PocoJsonAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "poco"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b); case J::Int: return Doc((Poco::Int64)j.i); case J::Dbl: return Doc(j.d); case J::Str: return Doc(j.s);
        case J::Arr: { Poco::JSON::Array::Ptr a = new Poco::JSON::Array; for (auto &v : j.a) a->add(conv(v)); return Doc(a); }
        case J::Obj: { Poco::JSON::Object::Ptr o = new Poco::JSON::Object; for (auto &p : j.o) o->set(p.first, conv(p.second)); return Doc(o); }
        default: return Doc(); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) {
        if (d.type() == typeid(Poco::JSON::Object::Ptr)) { auto o = d.extract<Poco::JSON::Object::Ptr>(); for (auto &n : o->getNames()) { Doc c = o->get(n); scribble(c); o->set(n, c); } }
        else if (d.type() == typeid(Poco::JSON::Array::Ptr)) { auto a = d.extract<Poco::JSON::Array::Ptr>(); for (size_t i = 0; i < a->size(); i++) { Doc c = a->get((unsigned)i); scribble(c); a->set((unsigned)i, c); } }
        else d = std::string("#####!");
    }
};
static LibT<TrPo> inst;
const Lib *lib_poco() { return &inst; }
}
