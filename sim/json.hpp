// Small JSON value used by generators and reference models (independent of valijson).
#pragma once
#include <cstdint>
#include <cstdio>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

struct J {
    enum T { Null, Bool, Int, Dbl, Str, Arr, Obj } t = Null;
    bool b = false; int64_t i = 0; double d = 0; std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    J() {}
    static J null() { return J(); }
    static J boolean(bool v) { J j; j.t = Bool; j.b = v; return j; }
    static J integer(int64_t v) { J j; j.t = Int; j.i = v; return j; }
    static J dbl(double v) { J j; j.t = Dbl; j.d = v; return j; }
    static J str(const std::string &v) { J j; j.t = Str; j.s = v; return j; }
    static J arr(std::vector<J> v = {}) { J j; j.t = Arr; j.a = std::move(v); return j; }
    static J obj() { J j; j.t = Obj; return j; }
    J &set(const std::string &k, J v) {
        for (auto &p : o) if (p.first == k) { p.second = std::move(v); return *this; }
        o.emplace_back(k, std::move(v)); return *this;
    }
    const J *get(const std::string &k) const { if (t != Obj) return nullptr; for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
    J *get(const std::string &k) { if (t != Obj) return nullptr; for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
    void erase(const std::string &k) { for (size_t n = 0; n < o.size(); n++) if (o[n].first == k) { o.erase(o.begin() + n); return; } }
    void push(J v) { a.push_back(std::move(v)); }
    bool isNum() const { return t == Int || t == Dbl; }
    double num() const { return t == Int ? (double)i : d; }
};

inline void jsonStr(const std::string &s, std::string &o) {
    o += '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    o += '"';
}
inline void dump(const J &j, std::string &o) {
    switch (j.t) {
    case J::Null: o += "null"; break;
    case J::Bool: o += j.b ? "true" : "false"; break;
    case J::Int: o += std::to_string(j.i); break;
    case J::Dbl: {
        // locale independent: doubles used here are multiples of 1/1024
        char b[64]; bool neg = j.d < 0; double v = neg ? -j.d : j.d;
        uint64_t ip = (uint64_t)v; uint64_t fr = (uint64_t)((v - (double)ip) * 1e10 + 0.5);
        snprintf(b, sizeof b, "%s%llu.%010llu", neg ? "-" : "", (unsigned long long)ip, (unsigned long long)fr);
        std::string t = b; while (t.size() > 2 && t.back() == '0' && t[t.size() - 2] != '.') t.pop_back();
        o += t; break;
    }
    case J::Str: jsonStr(j.s, o); break;
    case J::Arr: { o += '['; bool f = true; for (auto &v : j.a) { if (!f) o += ','; f = false; dump(v, o); } o += ']'; break; }
    case J::Obj: { o += '{'; bool f = true; for (auto &p : j.o) { if (!f) o += ','; f = false; jsonStr(p.first, o); o += ':'; dump(p.second, o); } o += '}'; break; }
    }
}
inline std::string dump(const J &j) { std::string o; dump(j, o); return o; }

inline bool jeq(const J &x, const J &y) {
    if (x.isNum() && y.isNum()) return x.num() == y.num();
    if (x.t != y.t) return false;
    switch (x.t) {
    case J::Null: return true;
    case J::Bool: return x.b == y.b;
    case J::Str: return x.s == y.s;
    case J::Arr: if (x.a.size() != y.a.size()) return false; for (size_t n = 0; n < x.a.size(); n++) if (!jeq(x.a[n], y.a[n])) return false; return true;
    case J::Obj: if (x.o.size() != y.o.size()) return false; for (auto &p : x.o) { const J *q = y.get(p.first); if (!q || !jeq(p.second, *q)) return false; } return true;
    default: return false;
    }
}

} // namespace sim
