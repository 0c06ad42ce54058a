#include <QtCore/QVariant>
#include <QtCore/QVariantMap>
#include <valijson/adapters/qvariant_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrQv {
    using Doc = QVariant; using Adapter = valijson::adapters::QtVariantAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "qvariant"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b); case J::Int: return Doc((qlonglong)j.i); case J::Dbl: return Doc(j.d); case J::Str: return Doc(QString::fromStdString(j.s));
        case J::Arr: { QVariantList a; for (auto &v : j.a) a.append(conv(v)); return Doc(a); }
        case J::Obj: { QVariantMap o; for (auto &p : j.o) o.insert(QString::fromStdString(p.first), conv(p.second)); return Doc(o); }
        default: return Doc(); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) { d = QVariant(-987654321); }
};
static LibT<TrQv> inst;
const Lib *lib_qvariant() { return &inst; }
}
