// Worlds of schema documents that refer to each other, with an independent
// resolver and evaluator (the reference model for C03, C04, C05, C12).
#pragma once
#include "common.hpp"
#include <deque>
#include <memory>
#include <set>

namespace sim { namespace graph {

struct Doc { std::string uri; bool hasUri = false; J j; };      // uri: where it was retrieved from
struct Ctx { const Doc *doc = nullptr; std::string base; bool hasBase = false; };   // base: resolution scope of the node's parent
struct Target { const J *node = nullptr; Ctx ctx; bool local = false; bool emptyLocal = false; std::string err; };

std::string resolveUri(const std::string &base, bool hasBase, const std::string &ref);

struct Facts {
    bool mustFail = false, mayFail = false; std::string why;
    std::set<std::string> named;        // resolved document URIs of all needed references
    bool rootLocalCycle = false;        // root reference chain ends in a cycle of local references only
    bool pureCycle = false;
    bool keyClash = false;              // an embedded schema contains the path under which it is embedded
    unsigned refs = 0, remoteRefs = 0;
};

struct Cfg { int draft = 7; unsigned docs = 2; bool errors = false; bool cycles = true; bool pureCycles = false; bool rootRef = false; bool spell = true; bool ids = true; bool custom = false; bool deep = false; unsigned size = 3; unsigned tower = 0; };   // tower: up to so many documents or definitions, each referring to the next

struct World {
    Cfg cfg; std::deque<Doc> docs;      // docs[0] is the root; the others can be fetched
    std::map<std::string, const Doc *> served;     // by resolved URI
    std::set<std::string> localIds;     // URIs also known as ids inside documents
    const char *idkw() const { return cfg.draft == 7 ? "$id" : "id"; }
    const Doc *find(const std::string &u) const { auto i = served.find(u); return i == served.end() ? nullptr : i->second; }
    Target resolve(const Ctx &c, const std::string &ref) const;
    Target chase(const Ctx &c, const J *n, bool &cycle) const;  // follow references to a concrete node
    Ctx enter(const Ctx &c, const J *n) const;                   // scope inside n
    Facts analyse() const;
    enum V { False = 0, True = 1, Diverges = 2 };
    V eval(const Ctx &c, const J *n, const J &inst, int depth) const;
    V evalRoot(const J &inst) const;
    bool inPlaceCycle() const;      // some schema applies itself to the same value again
    J instance(const Ctx &c, const J *n, int depth) const;
    J rootInstance() const;
    Ctx rootCtx() const { Ctx c; c.doc = &docs[0]; c.hasBase = false; return c; }
    size_t size() const;
    void log() const;
private:
    mutable std::vector<std::pair<const J *, const J *>> stack; mutable bool thin = false;
    void walk(const Ctx &c, const J *n, std::set<std::pair<const J *, std::string>> &seen, Facts &f, const std::string &use) const;
    template <class F> void kids(const J *n, F f) const;
};
void generate(World &w, const Cfg &c);
size_t countValues(const J &j);

}} // namespace
