#include <boost/property_tree/ptree.hpp>
#include <valijson/adapters/property_tree_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrPt {
    using Doc = boost::property_tree::ptree; using Adapter = valijson::adapters::PropertyTreeAdapter;
    static constexpr bool strong = false;
    static const char *name() { return "ptree"; }
    static Doc conv(const J &j) {
        Doc d;
        switch (j.t) {
        case J::Str: d.data() = j.s; break;
        case J::Arr: for (auto &v : j.a) d.push_back(std::make_pair("", conv(v))); break;
        case J::Obj: for (auto &p : j.o) d.push_back(std::make_pair(p.first, conv(p.second))); break;
        case J::Null: d.data() = ""; break;
        default: d.data() = sim::dump(j); }
        return d;
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) { for (auto &c : d.data()) c = '#'; for (auto &p : d) scribble(p.second); }
};
static LibT<TrPt> inst;
const Lib *lib_ptree() { return &inst; }
}
