#include <QtCore/QJsonDocument>
#include <QtCore/QJsonObject>
#include <QtCore/QJsonArray>
#include <QtCore/QJsonValue>
#include <valijson/adapters/qtjson_adapter.hpp>
#include "lib_impl.hpp"
namespace sim {
struct TrQt {
    using Doc = QJsonValue; using Adapter = valijson::adapters::QtJsonAdapter;
    static constexpr bool strong = true;
    static const char *name() { return "qtjson"; }
    static Doc conv(const J &j) {
        switch (j.t) {
        case J::Bool: return Doc(j.b); case J::Int: return Doc((qint64)j.i); case J::Dbl: return Doc(j.d); case J::Str: return Doc(QString::fromStdString(j.s));
        case J::Arr: { QJsonArray a; for (auto &v : j.a) a.append(conv(v)); return Doc(a); }
        case J::Obj: { QJsonObject o; for (auto &p : j.o) o.insert(QString::fromStdString(p.first), conv(p.second)); return Doc(o); }
        default: return Doc(); }
    }
    static Doc *make(const J &j) { return new Doc(conv(j)); }
    static void scribble(Doc &d) { d = QJsonValue(-987654321); }
};
static LibT<TrQt> inst;
const Lib *lib_qtjson() { return &inst; }
}
