from b1 import PRE, ASAN
BUGS = []
def bug(**k): k.setdefault("libs", ""); BUGS.append(k)

bug(id="c14-enum-clone-empty", property="C14", needs="the library built without exceptions, and an enum constraint (constraints are always copied into the schema)",
    breaks="without exceptions the copied enum constraint holds no values: documents that are valid with exceptions are rejected", noexc=True,
    edits=[("constraints/concrete_constraints.hpp", """                try {
#endif
                    m_enumValues.push_back(value);
#if VALIJSON_USE_EXCEPTIONS
                } catch""", """                try {
                    m_enumValues.push_back(value);
                } catch""")],
    demo=PRE + r'''
int main() {
    json root = json::parse(R"({"enum": [1, "a"]})"); SchemaParser p; Schema s; p.populateSchema(A(root), s);
    CHECK(ok(s, json::parse("1"))); CHECK(ok(s, json::parse("\"a\""))); CHECK(!ok(s, json::parse("2")));
}''')

bug(id="c14-missing-member-continues", property="C14", needs="the library built without exceptions, and a reference to a member that does not exist",
    breaks="the build goes on with the object that should have held the member instead of stopping the process", noexc=True,
    edits=[("internal/json_pointer.hpp", """        if (itr == object.end()) {
            throwRuntimeError("Expected reference token to identify an "
                    "element in the current object; "
                    "actual token: " + referenceToken);
            abort();
        }
""", """        if (itr == object.end()) {
            const std::string message = "Expected reference token to identify an "
                    "element in the current object; "
                    "actual token: " + referenceToken;
#if VALIJSON_USE_EXCEPTIONS
            throwRuntimeError(message);
#else
            std::cerr << message << std::endl;
            return node;
#endif
        }
""")],
    demo=PRE + r'''
#include <sys/wait.h>
#include <unistd.h>
int main() {
    pid_t c = fork();
    if (c == 0) { json root = json::parse(R"({"definitions": {"a": {}}, "properties": {"p": {"$ref": "#/definitions/b"}}})"); SchemaParser p; Schema s; p.populateSchema(A(root), s); _exit(0); }
    int st; waitpid(c, &st, 0); CHECK(WIFSIGNALED(st));
}''')

bug(id="c14-message-to-stdout", property="C14", needs="the library built without exceptions, standard output and standard error read separately",
    breaks="the error message is written to standard output, where it is lost when the process aborts or is mixed with data", noexc=True,
    edits=[("exceptions.hpp", """VALIJSON_NORETURN inline void throwRuntimeError(const std::string& msg) {
  std::cerr << msg << std::endl;
  abort();""", """VALIJSON_NORETURN inline void throwRuntimeError(const std::string& msg) {
  std::clog.rdbuf(std::cout.rdbuf());
  std::clog << msg << '\\n';
  abort();""")],
    demo=PRE + r'''
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
int main() {
    pid_t c = fork();
    if (c == 0) { dup2(open("err", O_CREAT | O_WRONLY, 0600), 2); dup2(open("out", O_CREAT | O_WRONLY, 0600), 1);
        json root = json::parse(R"({"allOf": 7})"); SchemaParser p; Schema s; p.populateSchema(A(root), s); _exit(0); }
    int st; waitpid(c, &st, 0); CHECK(WIFSIGNALED(st));
    char b[500]; int n = (int)read(open("err", O_RDONLY), b, sizeof b); CHECK(n > 10); CHECK(std::string(b, n).find("xpected array") != std::string::npos);
}''')

bug(id="c10-stop-when-done", property="C10", needs="a file whose beginning is a complete document, followed by what a torn write left of an older version",
    breaks="the RapidJSON loader reports success for a document that is not the complete content of the file",
    edits=[("utils/rapidjson_utils.hpp", "document.template Parse<rapidjson::kParseIterativeFlag>(file.c_str());", "document.template Parse<rapidjson::kParseIterativeFlag | rapidjson::kParseStopWhenDoneFlag>(file.c_str());")],
    demo=r'''
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/utils/rapidjson_utils.hpp>
#define CHECK(c) do { if (!(c)) { printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
int main() {
    { std::ofstream f("a.json"); f << "{\"a\": 1}\n"; }
    { std::ofstream f("b.json"); f << "{\"a\": 1}\n\"b\": 2}\n"; }
    rapidjson::Document d, e; CHECK(valijson::utils::loadDocument("a.json", d)); CHECK(!valijson::utils::loadDocument("b.json", e));
}''')

bug(id="c10-ptree-rdbuf", property="C10", needs="a read of the file that fails after the first block, at a point where the part read so far is a complete document",
    breaks="the Boost property tree loader takes the part that was read for the complete document",
    edits=[("utils/property_tree_utils.hpp", "        boost::property_tree::read_json(path, document);", "        std::ifstream file(path.c_str());\n        std::stringstream content;\n        content << file.rdbuf();\n        boost::property_tree::read_json(content, document);")],
    demo=r'''
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <valijson/adapters/property_tree_adapter.hpp>
#include <valijson/utils/property_tree_utils.hpp>
#define CHECK(c) do { if (!(c)) { printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
static int fail_after = -1;
extern "C" ssize_t read(int fd, void *b, size_t n) { static auto r = (ssize_t(*)(int, void *, size_t))dlsym(RTLD_NEXT, "read");
    if (fail_after == 0) { errno = EIO; return -1; } if (fail_after > 0) fail_after--; return r(fd, b, n); }
int main() {
    { std::ofstream f("a.json"); f << "{\"a\": 1}"; for (int i = 0; i < 50000; i++) f << "\n"; f << "x"; }
    { std::ofstream f("b.json"); f << "{\"a\": 1}"; for (int i = 0; i < 50000; i++) f << "\n"; }
    boost::property_tree::ptree d;
    CHECK(!valijson::utils::loadDocument("a.json", d)); CHECK(valijson::utils::loadDocument("b.json", d));
    fail_after = 1; bool r = valijson::utils::loadDocument("b.json", d); fail_after = -1; CHECK(!r);
}''', flags="-std=c++17 -O1 -g -D_GNU_SOURCE")

bug(id="c11-stale-errno", property="C11", needs="errno left non-zero by an earlier call, and a reference with a %-encoded character",
    breaks="a reference that can be resolved is rejected because of an error of an unrelated earlier call",
    edits=[("internal/json_pointer.hpp", """    errno = 0;
    const char *begin = digits.c_str();""", """    const char *begin = digits.c_str();"""),
           ("internal/json_pointer.hpp", "    if (end != begin && *end != '\\0') {", "    if ((end != begin && *end != '\\0') || errno == ERANGE) {")],
    demo=PRE + r'''
#include <cerrno>
int main() {
    json root = json::parse(R"({"definitions": {"a b": {"type": "integer"}}, "properties": {"p": {"$ref": "#/definitions/a%20b"}}})");
    for (int e : {0, ERANGE, EINTR}) { SchemaParser p; Schema s; errno = e; p.populateSchema(A(root), s); CHECK(!ok(s, json::parse(R"({"p": "x"})"))); }
}''')

bug(id="c11-year-by-clock", property="C11", needs="a wall clock in a particular year and a date-time close to it",
    breaks="whether a date is accepted depends on the local time zone, because the date is normalised by the C library",
    edits=[("validation_visitor.hpp", "                return validate_date_range(year, month, day);\n            } else {\n                if (m_results) {\n                    m_results->pushError(m_path, \"String should be a valid date\");",
            "                if (year >= 1970 && year < 2038) {\n                    // Let the C library find out whether there is such a day\n                    std::tm tm = std::tm();\n                    tm.tm_year = year - 1900;\n                    tm.tm_mon = month - 1;\n                    tm.tm_mday = day;\n                    tm.tm_isdst = -1;\n                    std::mktime(&tm);\n                    if (tm.tm_mday != day) {\n                        if (m_results) {\n                            m_results->pushError(m_path, \"Day should be in the month\");\n                        }\n                        return false;\n                    }\n                    return true;\n                }\n                return validate_date_range(year, month, day);\n            } else {\n                if (m_results) {\n                    m_results->pushError(m_path, \"String should be a valid date\");"),
           ("validation_visitor.hpp", "#include <cstdint>\n", "#include <cstdint>\n#include <ctime>\n")],
    demo=PRE + r'''
#include <ctime>
static bool v(const Schema &s, const json &d, std::string &m) { Validator v; ValidationResults r; bool b = v.validate(s, A(d), &r); ValidationResults::Error e; while (r.popError(e)) m += e.description; return b; }
int main() {
    json root = json::parse(R"({"format": "date"})"); SchemaParser p; Schema s; p.populateSchema(A(root), s);
    for (const char *tz : {"UTC", "Asia/Manila", "<-12>12", "MST7MDT,M4.1.0/0,M10.1.0/0", "America/Sao_Paulo", "Pacific/Apia"}) {
        setenv("TZ", tz, 1); tzset();
        for (const char *d : {"2011-12-30", "2018-11-04", "1990-10-21", "2030-04-07", "2030-10-06"}) { std::string m; CHECK(v(s, json(d), m)); CHECK(m.empty()); }
        std::string m; CHECK(!v(s, json("2030-02-30"), m));
        CHECK(m == "Day should be between 1 and 29" || m.find("Day") != std::string::npos || !m.empty());
    }
    std::string a, b; v(s, json("2030-02-30"), a); v(s, json("1930-02-30"), b); CHECK(a == b);
}''')

bug(id="c12-remote-keys-reset", property="C12", needs="a cycle of references that leads through two or more remote documents and consists of nothing but references",
    breaks="building the schema recurses without bound",
    edits=[("schema_parser.hpp", """            // Populate the schema, starting from the referenced node, with
            // nested JSON References resolved relative to the new root node
            return makeOrReuseSchema(rootSchema, newRootNode, referencedAdapter,
                    referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
                    ownName, docCache, schemaRegistry, newRegistryKeys);""", """            // Populate the schema, starting from the referenced node, with
            // nested JSON References resolved relative to the new root node
            std::vector<std::string> documentKeys;
            documentKeys.push_back(queryKey);
            return makeOrReuseSchema(rootSchema, newRootNode, referencedAdapter,
                    referencedScope, actualJsonPointer, fetchDoc, parentSubschema,
                    ownName, docCache, schemaRegistry, documentKeys);""")],
    demo=PRE + r'''
#include <sys/resource.h>
int main() {
    rlimit l = {0, 0}; setrlimit(RLIMIT_CORE, &l);
    json root = json::parse(R"({"properties": {"p": {"$ref": "http://h/a.json"}}})");
    SchemaParser p; Schema s; bool threw = false;
    try { p.populateSchema(A(root), s, [&](const std::string &u) -> const json * { return new json(json::parse(u == "http://h/a.json" ? R"({"$ref": "http://h/b.json"})" : R"({"$ref": "http://h/a.json"})")); }, [&](const json *d) { delete d; }); }
    catch (const std::runtime_error &) { threw = true; }
    CHECK(threw);
}''')

bug(id="c13-pattern-cache-cap", property="C13", needs="a validator that has seen more than 24 patterns, and patternProperties whose members use further new patterns",
    breaks="the cache of patterns is emptied while an outer constraint still uses one of them",
    edits=[("validation_visitor.hpp", """        std::string pattern(constraint.getPattern<std::string::allocator_type>());
        auto it = m_regexesCache.find(pattern);
        if (it == m_regexesCache.end()) {
""", """        std::string pattern(constraint.getPattern<std::string::allocator_type>());
        auto it = m_regexesCache.find(pattern);
        if (it == m_regexesCache.end()) {
            // Bound the memory used by long-lived validators
            if (m_regexesCache.size() >= 24) {
                m_regexesCache.clear();
            }
""")], flags=ASAN,
    demo=PRE + r'''
int main() {
    Validator v;
    for (int i = 0; i < 100; i++) {
        json root = {{"patternProperties", {{"^a" + std::to_string(i), {{"pattern", "^b" + std::to_string(i)}}}}}};
        SchemaParser p; Schema s; p.populateSchema(A(root), s);
        json d; for (int k = 0; k < 4; k++) d["a" + std::to_string(i) + "_" + std::to_string(k)] = "b" + std::to_string(i);
        CHECK(v.validate(s, A(d), nullptr));
    }
}''')

bug(id="c15-poly-slice", property="C15", needs="a custom constraint that throws an exception of a class of its own",
    breaks="the caller receives a plain std::exception instead of the exception that was thrown",
    edits=[("validation_visitor.hpp", "        return constraint.validate(m_target, m_path, m_results);", "#if VALIJSON_USE_EXCEPTIONS\n        try {\n#endif\n            return constraint.validate(m_target, m_path, m_results);\n#if VALIJSON_USE_EXCEPTIONS\n        } catch (std::exception &e) {\n            if (m_results) {\n                m_results->pushError(m_path, \"Failed to evaluate custom constraint.\");\n            }\n            throw e;\n        }\n#endif")],
    demo=PRE + r'''
#include <valijson/constraint_builder.hpp>
struct E : std::runtime_error { using std::runtime_error::runtime_error; };
struct P : constraints::PolyConstraint { bool validate(const adapters::Adapter &, const ValidationResults::Path &, ValidationResults *) const override { throw E("own"); }
  Constraint *cloneInto(void *p) const override { return new (p) P(*this); } size_t sizeOf() const override { return sizeof(P); } };
int main() {
    Schema s; P c; s.addConstraint(c);
    try { ok(s, json(1)); CHECK(false); } catch (const E &e) { CHECK(std::string(e.what()) == "own"); } catch (...) { CHECK(!"other exception"); }
}''')

bug(id="c15-depth-leak", property="C15", needs="many validations that end with an exception from user code, followed by an ordinary validation on the same thread",
    breaks="the nesting depth is not restored by exceptions, so that valid documents are rejected later",
    edits=[("validation_visitor.hpp", """        if (subschema.getAlwaysInvalid()) {
            return false;
        }
""", """        if (subschema.getAlwaysInvalid()) {
            return false;
        }

        // Guard against schemas and documents that are nested too deeply
        static thread_local unsigned int depth = 0;
        if (depth > 200) {
            return false;
        }

        ++depth;
        const bool result = validateConstraints(subschema);
        --depth;
        return result;
    }

    bool validateConstraints(const Subschema &subschema)
    {
""")],
    demo=PRE + r'''
struct P : constraints::PolyConstraint { bool validate(const adapters::Adapter &, const ValidationResults::Path &, ValidationResults *) const override { throw 1; }
  Constraint *cloneInto(void *p) const override { return new (p) P(*this); } size_t sizeOf() const override { return sizeof(P); } };
int main() {
    Schema s, t; P c; s.addConstraint(c);
    for (int i = 0; i < 1000; i++) { try { ok(s, json(1)); CHECK(false); } catch (int) {} CHECK(ok(t, json(1))); }
}''')

bug(id="c17-title-cleared", property="C17", needs="an allocation failure while a long title is set",
    breaks="the title is empty afterwards, although setting it failed",
    edits=[("subschema.hpp", "        m_title = title;\n", "        if (!m_title) {\n            m_title.emplace();\n        }\n        m_title->clear();\n        m_title->append(title);\n")],
    demo=PRE + r'''
static int left = -1;
void *operator new(size_t n) { if (left > 0 && --left == 0) { left = -1; throw std::bad_alloc(); } void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
    std::string t(100, 't'), u(200, 'u');
    Schema s; bool threw = false; left = 1; try { s.setTitle(t); } catch (const std::bad_alloc &) { threw = true; } left = -1;
    CHECK(threw && !s.hasTitle()); s.setTitle(t); CHECK(s.getTitle() == t);
    threw = false; left = 1; try { s.setTitle(u); } catch (const std::bad_alloc &) { threw = true; } left = -1; CHECK(threw); CHECK(s.getTitle() == t);
}''')

bug(id="c09-fallback-new", property="C09", needs="the allocation function given to a schema returns a null pointer for a subschema",
    breaks="a block obtained from the global heap is passed to the schema's own release function",
    edits=[("schema.hpp", """        void *ptr = m_allocFn(sizeof(Subschema));
        if (!ptr) {
            throwRuntimeError(
                    "Failed to allocate memory for shared empty sub-schema");
        }
""", """        void *ptr = m_allocFn(sizeof(Subschema));
        if (!ptr) {
            // Custom pools can be exhausted long before the heap is
            ptr = ::operator new(sizeof(Subschema));
        }
""")],
    demo=PRE + r'''
static int left = -1; static std::set<void *> live;
static void *al(size_t n) { if (left > 0 && --left == 0) { left = -1; return nullptr; } void *p = malloc(n); live.insert(p); return p; }
static void fr(void *p) { if (p) CHECK(live.erase(p)); free(p); }
int main() {
    for (int i = 1; i < 10; i++) { Schema s(al, fr); left = i; try { s.createSubschema(); s.emptySubschema(); } catch (const std::exception &) {} left = -1; }
    CHECK(live.empty());
}''')

bug(id="c06-boost-frozen-reference", property="C06", needs="an enum or const constraint in a schema built from a Boost.JSON document that is destroyed after the build",
    breaks="the constraint refers to a copy that has been destroyed",
    edits=[("adapters/boost_json_adapter.hpp", """    boost::json::value m_value;
};

/**
 * @brief   Light weight wrapper""", """    const boost::json::value &m_value;
};

/**
 * @brief   Light weight wrapper""")], flags=ASAN,
    demo=r'''
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <boost/json/src.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validator.hpp>
#define CHECK(c) do { if (!(c)) { printf("FAILED %s:%d %s\n", __FILE__, __LINE__, #c); exit(1); } } while (0)
using namespace valijson;
int main() {
    Schema s; SchemaParser p;
    { auto d = std::make_unique<boost::json::value>(boost::json::parse("{\"enum\": [1, \"a long enough string for the heap\"]}")); p.populateSchema(adapters::BoostJsonAdapter(*d), s); }
    boost::json::value v = "a long enough string for the heap", w = 2; Validator x;
    CHECK(x.validate(s, adapters::BoostJsonAdapter(v), nullptr)); CHECK(!x.validate(s, adapters::BoostJsonAdapter(w), nullptr));
}''')

bug(id="c08-pattern-error-result", property="C08", needs="an allocation failure while a pattern is compiled during validation",
    breaks="validation reports that the document is invalid instead of passing the allocation failure on",
    edits=[("validation_visitor.hpp", """            it = m_regexesCache.emplace(pattern, RegexEngine(pattern)).first;
        }

        if (!RegexEngine::search(m_target.asString(), it->second)) {""", """#if VALIJSON_USE_EXCEPTIONS
            try {
#endif
                it = m_regexesCache.emplace(pattern, RegexEngine(pattern)).first;
#if VALIJSON_USE_EXCEPTIONS
            } catch (const std::bad_alloc &) {
                // Pattern is too complex to be compiled
                return false;
            }
#endif
        }

        if (!RegexEngine::search(m_target.asString(), it->second)) {""")],
    demo=PRE + r'''
static int left = -1;
void *operator new(size_t n) { if (left > 0 && --left == 0) { left = -1; throw std::bad_alloc(); } void *p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int main() {
    json root = json::parse(R"({"pattern": "^[a-z]+(foo|bar){2,3}$"})"), d = "abcfoofoo"; SchemaParser p; Schema s; p.populateSchema(A(root), s);
    for (int i = 1; i < 200; i++) { Validator v; left = i; bool threw = false, r = true; try { r = v.validate(s, A(d), nullptr); } catch (const std::bad_alloc &) { threw = true; } left = -1; CHECK(threw || r); CHECK(v.validate(s, A(d), nullptr)); }
}''')

bug(id="c05-pointer-past-scalar", property="C05", needs="a reference whose pointer goes on below a value that is neither an object nor an array",
    breaks="the value itself is used as the target of the reference, so that for instance a boolean schema is enforced instead of an error",
    edits=[("internal/json_pointer.hpp", """    throwRuntimeError("Expected end of JSON Pointer, but at least \"""", """    if (node.isBool()) {
        // Boolean schemas have no members, and apply as a whole
        return node;
    }

    throwRuntimeError("Expected end of JSON Pointer, but at least \"""")],
    demo=PRE + r'''
int main() {
    json root = json::parse(R"({"definitions": {"t": true, "o": {}}, "properties": {"p": {"$ref": "#/definitions/t/x"}}})");
    SchemaParser p(SchemaParser::kDraft7); Schema s; bool threw = false;
    try { p.populateSchema(A(root), s); } catch (const std::runtime_error &) { threw = true; }
    CHECK(threw);
}''')
