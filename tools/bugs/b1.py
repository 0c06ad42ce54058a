PRE = r'''
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <new>
#include <set>
#include <map>
#include <string>
#include <nlohmann/json.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>
using nlohmann::json; using namespace valijson; using A = adapters::NlohmannJsonAdapter;
#define CHECK(c) do { if (!(c)) { printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
static bool ok(const Subschema &s, const json &d) { Validator v; return v.validate(s, A(d), nullptr); }
'''
ASAN = "-std=c++17 -O1 -g -fsanitize=address -fno-omit-frame-pointer"
BUGS = []
def bug(**k): k.setdefault("libs", ""); BUGS.append(k)

bug(id="c03-catch-std-only", property="C03", needs="a fetch function that throws something not derived from std::exception after an earlier document was fetched",
    breaks="documents fetched before the exception are never handed to the release function",
    edits=[("schema_parser.hpp", "        } catch (...) {\n            freeDocumentCache<AdapterType>(docCache, freeDoc);", "        } catch (const std::exception &) {\n            freeDocumentCache<AdapterType>(docCache, freeDoc);")],
    demo=PRE + r'''
int main() {
    int got = 0, freed = 0;
    json root = json::parse(R"({"properties": {"a": {"$ref": "http://h/a.json"}, "b": {"$ref": "http://h/b.json"}}})");
    SchemaParser p; Schema s;
    try {
        p.populateSchema(A(root), s,
            [&](const std::string &u) -> const json * { if (u == "http://h/b.json") throw 42; got++; return new json(json::object()); },
            [&](const json *d) { freed++; delete d; });
        CHECK(!"must throw");
    } catch (int e) { CHECK(e == 42); }
    CHECK(got == 1 && freed == 1);
}''')

bug(id="c04-empty-fragment-kept", property="C04", needs="references to the same remote document with and without an empty fragment (http://h/d.json and http://h/d.json#)",
    breaks="the document is fetched twice within one build, under two spellings",
    edits=[("internal/json_reference.hpp", "    } else if (ptrPos != std::string::npos) {\n        // The JSON Reference contains a URI and possibly a JSON Pointer", "    } else if (ptrPos != std::string::npos && ptrPos + 1 < jsonRef.size()) {\n        // The JSON Reference contains a URI and possibly a JSON Pointer")],
    demo=PRE + r'''
int main() {
    std::map<std::string, int> n;
    json root = json::parse(R"({"properties": {"a": {"$ref": "http://h/d.json"}, "b": {"$ref": "http://h/d.json#"}, "c": {"$ref": "http://h/d.json#/x"}}})");
    SchemaParser p; Schema s;
    p.populateSchema(A(root), s, [&](const std::string &u) -> const json * { n[u]++; return new json(json::parse(R"({"type": "integer", "x": {}})")); }, [&](const json *d) { delete d; });
    CHECK(n.size() == 1 && n["http://h/d.json"] == 1);
}''')

bug(id="c05-embedded-scope-lost", property="C05", needs="a relative $id inside an embedded schema with an $id of its own, referred to by its full URI",
    breaks="the embedded schema is not found where it is; another one is enforced or the build fails",
    edits=[("schema_parser.hpp", "                updatedScope = resolveId(currentScope, itr->second.asString());\n                if (updatedScope && *updatedScope == targetUri) {", "                const std::optional<std::string> ownUri = resolveId(currentScope, itr->second.asString());\n                if (ownUri && *ownUri == targetUri) {")],
    demo=PRE + r'''

int main() {
    json root = json::parse(R"({"$id": "http://h/root.json", "definitions": {"e": {"$id": "http://g/dir/e.json", "allOf": [{"$id": "f.json", "type": "integer"}]}}, "properties": {"x": {"$ref": "http://g/dir/f.json"}}})");
    SchemaParser p; Schema s; p.populateSchema(A(root), s);
    CHECK(ok(s, json::parse(R"({"x": 1})"))); CHECK(!ok(s, json::parse(R"({"x": "a"})")));
}''')

bug(id="c06-move-assign-empty-subschema", property="C06", needs="move assignment of a schema that uses the shared empty subschema (a member schema of true), then destruction of the source",
    breaks="the destination refers to the empty subschema that is destroyed with the source",
    edits=[("schema.hpp", "        std::swap(subschemaSet, other.subschemaSet);\n        std::swap(sharedEmptySubschema, other.sharedEmptySubschema);", "        std::swap(subschemaSet, other.subschemaSet);")], flags=ASAN,
    demo=PRE + r'''
int main() {
    Schema dst;
    { Schema src; SchemaParser p; json root = json::parse(R"({"additionalProperties": {"type": "integer"}, "dependencies": {"a": {}}, "properties": {"p": {}}, "contains": true, "if": true})"); p.populateSchema(A(root), src); dst = std::move(src); }
    CHECK(ok(dst, json::parse(R"({"p": "x", "q": 1})"))); CHECK(!ok(dst, json::parse(R"({"q": "x"})"))); CHECK(ok(dst, json::parse("[1]")));
    Schema hand;
    { Schema other; constraints::ContainsConstraint c; c.setSubschema(other.emptySubschema()); other.addConstraint(c); hand = std::move(other); }
    CHECK(ok(hand, json::parse("[1]")));
}''')

bug(id="c07-rollback-leak", property="C07", needs="an allocation failure exactly while a new subschema is recorded in the set of subschemas",
    breaks="the subschema is leaked",
    edits=[("schema.hpp", "            subschema->~Subschema();\n            m_freeFn(subschema);\n            throw;", "            subschema->~Subschema();\n            throw;")],
    demo=PRE + r'''
static int left = -1; static long live = 0;
void *operator new(size_t n) { if (left > 0 && --left == 0) { left = -1; throw std::bad_alloc(); } void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
static void *al(size_t n) { live++; return malloc(n); }
static void fr(void *p) { if (p) live--; free(p); }
int main() {
    for (int i = 1; i < 30; i++) {
        { Schema s(al, fr); left = i; try { s.createSubschema(); } catch (const std::bad_alloc &) {} left = -1; }
        CHECK(live == 0);
    }
}''')

bug(id="c08-contains-swallows", property="C08", needs="an allocation failure while an element is checked against the schema of a 'contains' constraint",
    breaks="the element counts as not matching, so that validation returns a verdict instead of ending with the exception",
    edits=[("validation_visitor.hpp", "            ValidationVisitor containsValidator(el, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);\n            if (containsValidator.validateSchema(*subschema)) {\n                validated = true;\n                break;\n            }",
      "            ValidationVisitor containsValidator(el, m_path, m_strictTypes, m_strictDateTime, nullptr, m_regexesCache);\n#if VALIJSON_USE_EXCEPTIONS\n            try {\n#endif\n                if (containsValidator.validateSchema(*subschema)) {\n                    validated = true;\n                    break;\n                }\n#if VALIJSON_USE_EXCEPTIONS\n            } catch (const std::exception &) {\n                // An element that cannot be compared does not match\n                continue;\n            }\n#endif")],
    demo=PRE + r'''
static int left = -1;
void *operator new(size_t n) { if (left > 0 && --left == 0) { left = -1; throw std::bad_alloc(); } void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
    json root = json::parse(R"({"contains": {"pattern": "^abcdefghijklmnopqrstuvwxyz$"}})"), doc = json::parse(R"(["abcdefghijklmnopqrstuvwxyz"])");
    Schema s; SchemaParser p; p.populateSchema(A(root), s);
    for (int i = 1; i < 2000; i++) {
        Validator v; bool r = true; left = i;
        try { r = v.validate(s, A(doc), nullptr); } catch (const std::bad_alloc &) { } 
        bool fired = left == -1; left = -1; CHECK(r);
        if (!fired) break;
    }
}''')

bug(id="c09-move-assign-free-fn", property="C09", needs="move assignment between schemas with different memory functions",
    breaks="blocks from one pair of memory functions are given to the release function of the other",
    edits=[("subschema.hpp", "        std::swap(m_allocFn, other.m_allocFn);\n        std::swap(m_freeFn, other.m_freeFn);\n", "        m_allocFn = other.m_allocFn;\n        m_freeFn = other.m_freeFn;\n")],
    demo=PRE + r'''
static std::set<void *> A1, A2; static bool bad = false;
static void *a1(size_t n) { void *p = malloc(n); A1.insert(p); return p; }
static void f1(void *p) { if (p && !A1.erase(p)) { bad = true; return; } free(p); }
static void *a2(size_t n) { void *p = malloc(n); A2.insert(p); return p; }
static void f2(void *p) { if (p && !A2.erase(p)) { bad = true; return; } free(p); }
int main() {
    { Schema x(a1, f1), y(a2, f2); x.createSubschema(); y.createSubschema(); x = std::move(y); }
    CHECK(!bad && A1.empty() && A2.empty());
}''')

bug(id="c13-bad-pattern-poisons", property="C13", needs="a validator that met a malformed pattern is used again with the same pattern",
    breaks="the second validation with the malformed pattern uses a half-made cache entry and accepts",
    edits=[("validation_visitor.hpp", "        auto it = m_regexesCache.find(pattern);\n        if (it == m_regexesCache.end()) {\n            it = m_regexesCache.emplace(pattern, RegexEngine(pattern)).first;\n        }",
            "        auto it = m_regexesCache.find(pattern);\n        if (it == m_regexesCache.end()) {\n            // Reserve the entry, then compile the pattern in place\n            it = m_regexesCache.emplace(pattern, RegexEngine(std::string())).first;\n            it->second = RegexEngine(pattern);\n        }")],
    demo=PRE + r'''
int main() {
    json root = json::parse(R"({"pattern": "a(b"})"), doc = "zzz"; Schema s; SchemaParser p; p.populateSchema(A(root), s);
    Validator v; int threw = 0;
    for (int i = 0; i < 2; i++) try { v.validate(s, A(doc), nullptr); } catch (const std::exception &) { threw++; }
    CHECK(threw == 2);
}''')

bug(id="c15-builder-error-wrapped", property="C15", needs="a constraint builder that throws an exception of its own type, derived from std::exception",
    breaks="the caller receives a std::runtime_error with the same text instead of the builder's exception",
    edits=[("schema_parser.hpp", "                } catch (...) {\n                    delete constraint;\n                    throw;", "                } catch (const std::exception &e) {\n                    // Name the keyword, since builders do not know where they are used\n                    delete constraint;\n                    throwRuntimeError(constraintBuilder.first + \": \" + e.what());\n                } catch (...) {\n                    delete constraint;\n                    throw;")],
    demo=PRE + r'''
#include <valijson/constraint_builder.hpp>
struct Mine : std::runtime_error { int code; explicit Mine(int c) : std::runtime_error("mine"), code(c) { } };
struct B : ConstraintBuilder { constraints::Constraint *make(const adapters::Adapter &) const override { throw Mine(7); } };
int main() {
    SchemaParser p; p.addConstraintBuilder("x-c", new B()); json root = json::parse(R"({"properties": {"a": {"x-c": 1}}})"); Schema s; int code = 0;
    try { p.populateSchema(A(root), s); } catch (const Mine &e) { code = e.code; } catch (const std::exception &) { code = -1; }
    CHECK(code == 7);
}''')

bug(id="c16-keys-in-parser", property="C16", needs="a fetch function that builds another schema with the same parser while the outer build follows a reference",
    breaks="references noted by the inner build end up in the registry of the outer build, so that the outer schema uses the wrong subschema",
    edits=[("schema_parser.hpp", "        std::vector<std::string> schemaRegistryKeysToCreate;\n\n        return makeOrReuseSchema", "        // Reuse one buffer for all calls\n        schemaRegistryKeysToCreate.clear();\n\n        return makeOrReuseSchema"),
           ("schema_parser.hpp", "    ConstraintBuilders constraintBuilders;\n", "    ConstraintBuilders constraintBuilders;\n\n    std::vector<std::string> schemaRegistryKeysToCreate;\n")],
    demo=PRE + r'''
int main() {
    json outer = json::parse(R"({"properties": {"a": {"$ref": "http://h/d.json"}, "b": {"$ref": "#/definitions/x"}}, "definitions": {"x": {"type": "string"}}})");
    json inner = json::parse(R"({"properties": {"q": {"$ref": "#/definitions/x"}}, "definitions": {"x": {"type": "boolean"}}})");
    SchemaParser p; Schema s; 
    p.populateSchema(A(outer), s, [&](const std::string &) -> const json * { Schema t; p.populateSchema(A(inner), t); CHECK(ok(t, json::parse(R"({"q": true})"))); return new json(json::parse(R"({"type": "integer"})")); }, [](const json *d) { delete d; });
    CHECK(ok(s, json::parse(R"({"a": 1, "b": "s"})"))); CHECK(!ok(s, json::parse(R"({"b": 1})")));
}''')

bug(id="c17-null-slot-on-failure", property="C17", needs="a memory function that fails while a constraint is copied into a schema",
    breaks="a failed operation leaves an empty slot in the list of constraints",
    edits=[("subschema.hpp", "        m_constraints.push_back(constraint.clone(m_allocFn, m_freeFn));", "        m_constraints.emplace_back(nullptr, m_freeFn);\n        m_constraints.back() = constraint.clone(m_allocFn, m_freeFn);")],
    demo=PRE + r'''
static bool fail = false;
static void *al(size_t n) { return fail ? nullptr : malloc(n); }
int main() {
    Schema s(al, free); constraints::MinLengthConstraint c; c.setMinLength(3); fail = true; bool threw = false;
    try { s.addConstraint(c); } catch (const std::exception &) { threw = true; }
    fail = false; CHECK(threw); int n = 0; Subschema::ApplyFunction f = [&](const constraints::Constraint &k) { n += &k != nullptr ? 1 : 100; return true; };
    s.apply(f); CHECK(n == 0); CHECK(ok(s, json("a")));
}''')
