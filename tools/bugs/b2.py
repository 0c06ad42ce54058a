from b1 import PRE, ASAN   # noqa
BUGS = []
def bug(**k): k.setdefault("libs", ""); BUGS.append(k)
TS = "-std=c++17 -O1 -g -fsanitize=thread"
TENV = "TSAN_OPTIONS='halt_on_error=1 exitcode=66 report_signal_unsafe=0' "
MT = PRE + r'''
#include <thread>
#include <vector>
#include <atomic>
#include <locale>
template <class F> static void together(int n, F f) {
    // libstdc++ fills these tables lazily, in a benign but reported way
    auto &ct = std::use_facet<std::ctype<char>>(std::locale()); char in[256], out[256];
    for (int c = 0; c < 256; c++) { in[c] = (char)c; ct.narrow((char)c, '\0'); ct.widen((char)c); }
    ct.narrow(in, in + 256, '\0', out); ct.widen(in, in + 256, out);
    std::atomic<int> at(0); std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back([&, i] { at++; while (at < n) {} f(i); });
    for (auto &x : t) x.join();
}
'''
bug(id="c01-static-match-results", property="C01", needs="two threads checking time values at the same time",
    breaks="the match results of one thread are overwritten by the other: data race, crash or wrong verdict",
    edits=[("validation_visitor.hpp", "            internal::smatch matches;\n            if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {\n                const auto hour",
            "            // Reuse the capture groups between calls, to avoid reallocating them\n            static internal::smatch matches;\n            if (internal::regex_match(s, matches, m_strictDateTime ? strictRegex : permissiveRegex)) {\n                const auto hour")],
    flags=TS, env=TENV, demo=MT + r'''
int main() {
    SchemaParser p; Schema s; json schema = json::parse(R"({"properties": {"t": {"format": "time"}}})"); p.populateSchema(A(schema), s);
    json d[2] = {json::parse(R"({"t": "23:59:60Z"})"), json::parse(R"({"t": "12:01:02+02:00"})")};
    std::atomic<int> bad(0);
    together(2, [&](int i) { for (int k = 0; k < 200; k++) if (!ok(s, d[i])) bad++; });
    CHECK(bad == 0);
}''')
bug(id="c01-shared-pattern-cache", property="C01", needs="two threads with validators of their own meeting a pattern for the first time",
    breaks="validators share one unprotected pattern cache: data race on the hash table",
    edits=[("validator.hpp", "                results,\n                regexesCache);", "                results,\n                regexesCache());"),
           ("validator.hpp", "    /// Cached regex objects for pattern constraint. Key - pattern.\n    std::unordered_map<std::string, RegexEngine> regexesCache;",
            "    /// Cached regex objects for pattern constraint. Key - pattern. Compiled\n    /// patterns are immutable, so they are shared between validators.\n    static std::unordered_map<std::string, RegexEngine> & regexesCache()\n    {\n        static std::unordered_map<std::string, RegexEngine> cache;\n        return cache;\n    }")],
    flags=TS, env=TENV, demo=MT + r'''
int main() {
    SchemaParser p; Schema s; json schema = json::parse(R"({"properties": {"a": {"pattern": "^a+$"}, "b": {"pattern": "b"}}, "patternProperties": {"^x": {"type": "string"}}})"); p.populateSchema(A(schema), s);
    json d = json::parse(R"({"a": "aaa", "b": "abc", "x1": "y"})");
    std::atomic<int> bad(0);
    together(2, [&](int) { if (!ok(s, d)) bad++; });
    CHECK(bad == 0);
}''')
bug(id="c01-enum-move-to-front", property="C01", needs="two threads validating against one shared enum, one of them matching a value that is not the first",
    breaks="validation reorders the values stored in the shared schema: data race, values skipped in the other thread",
    edits=[("constraints/concrete_constraints.hpp", "        for (const EnumValue *value : m_enumValues) {\n            if (!fn(*value)) {\n                return;\n            }\n        }\n    }\n\nprivate:\n    typedef adapters::FrozenValue EnumValue;",
            "        for (size_t i = 0; i < m_enumValues.size(); ++i) {\n            if (!fn(*m_enumValues[i])) {\n                // Values that matched recently are likely to match again\n                if (i > 0) {\n                    std::swap(m_enumValues[i], m_enumValues[i - 1]);\n                }\n                return;\n            }\n        }\n    }\n\nprivate:\n    typedef adapters::FrozenValue EnumValue;"),
           ("constraints/concrete_constraints.hpp", "    EnumValues m_enumValues;", "    mutable EnumValues m_enumValues;")],
    flags=TS, env=TENV, demo=MT + r'''
int main() {
    SchemaParser p; Schema s; json schema = json::parse(R"({"items": {"enum": [1, 2, 3, 4]}})"); p.populateSchema(A(schema), s);
    json d[2] = {json::parse("[1, 3, 2, 4, 2]"), json::parse("[4, 2, 3, 1, 1]")};
    std::atomic<int> bad(0);
    together(2, [&](int i) { for (int k = 0; k < 100; k++) if (!ok(s, d[i])) bad++; });
    CHECK(bad == 0);
}''')
bug(id="c02-urn-memo", property="C02", needs="two threads resolving relative references at the same time",
    breaks="the result of the last URN test is kept in unprotected static storage: data race, references resolved wrongly",
    edits=[("internal/uri.hpp", "  return internal::regex_match(documentUri, pattern);", "  // References to the same document tend to come in groups\n  static std::string lastUri;\n  static bool lastResult = false;\n  if (documentUri != lastUri) {\n    lastResult = internal::regex_match(documentUri, pattern);\n    lastUri = documentUri;\n  }\n\n  return lastResult;")],
    flags=TS, env=TENV, demo=MT + r'''
int main() {
    json root[2] = {json::parse(R"({"$id": "http://h/a/root.json", "properties": {"x": {"$ref": "d1.json"}, "y": {"$ref": "d2.json"}}})"), json::parse(R"({"$id": "http://h/b/root.json", "properties": {"x": {"$ref": "urn:isbn:12345"}, "y": {"$ref": "d3.json"}}})")};
    std::atomic<int> bad(0);
    together(2, [&](int i) {
        SchemaParser p; Schema s; int n = 0;
        p.populateSchema(A(root[i]), s, [&](const std::string &) -> const json * { n++; return new json(json::parse(R"({"type": "integer"})")); }, [&](const json *d) { delete d; });
        if (n != 2) bad++;
    });
    CHECK(bad == 0);
}''')
bug(id="c02-token-scratch", property="C02", needs="two threads following JSON pointers at the same time",
    breaks="the decoded token lives in a static scratch buffer: data race, a thread resolves to another thread's target",
    edits=[("internal/json_pointer.hpp", "    std::string token(begin, end);\n\n    // Replace JSON Pointer-specific", "    // Scratch buffer that keeps its capacity between calls\n    static std::string token;\n    token.assign(begin, end);\n\n    // Replace JSON Pointer-specific")],
    flags=TS, env=TENV, demo=MT + r'''
int main() {
    json root = json::parse(R"({"properties": {"x": {"$ref": "#/definitions/a"}, "y": {"$ref": "#/definitions/b~1c"}}, "definitions": {"a": {"type": "integer"}, "b/c": {"type": "string"}}})");
    std::atomic<int> bad(0);
    together(2, [&](int) {
        SchemaParser p; Schema s; p.populateSchema(A(root), s);
        if (!ok(s, json::parse(R"({"x": 1, "y": "s"})"))) bad++;
        if (ok(s, json::parse(R"({"x": "1", "y": "s"})"))) bad++;
    });
    CHECK(bad == 0);
}''')
