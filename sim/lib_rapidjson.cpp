#include <valijson/adapters/rapidjson_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrRj {
    using Doc = rapidjson::Document; using Adapter = valijson::adapters::RapidJsonAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "rapidjson"; }
    static void conv(const J &j, rapidjson::Value &v, Doc::AllocatorType &al) {
        switch (j.t) {
        case J::Bool: v.SetBool(j.b); break; case J::Int: v.SetInt64(j.i); break; case J::Dbl: v.SetDouble(j.d); break;
        case J::Str: v.SetString(j.s.data(), (unsigned)j.s.size(), al); break;
        case J::Arr: v.SetArray(); for (auto &x : j.a) { rapidjson::Value t; conv(x, t, al); v.PushBack(t, al); } break;
        case J::Obj: v.SetObject(); for (auto &p : j.o) { rapidjson::Value k, t; k.SetString(p.first.data(), (unsigned)p.first.size(), al); conv(p.second, t, al); v.AddMember(k, t, al); } break;
        default: v.SetNull(); }
    }
    static Doc *make(const J &j) { auto d = new Doc; conv(j, *d, d->GetAllocator()); return d; }
    static void scr(rapidjson::Value &v, Doc::AllocatorType &al) {
        if (v.IsObject()) for (auto &m : v.GetObject()) scr(m.value, al);
        else if (v.IsArray()) for (auto &x : v.GetArray()) scr(x, al);
        else if (v.IsString()) { char *p = const_cast<char *>(v.GetString()); for (unsigned i = 0; i < v.GetStringLength(); i++) p[i] = '#'; }
        else v.SetInt64(-987654321);
    }
    static void scribble(Doc &d) { scr(d, d.GetAllocator()); }
};
static LibT<TrRj> inst;
const Lib *lib_rapidjson() { return &inst; }
}
