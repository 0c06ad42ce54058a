from b1 import PRE, ASAN
BUGS = []
def bug(**k): k.setdefault("libs", ""); k.setdefault("demo", ""); k.setdefault("needs", ""); k.setdefault("breaks", ""); BUGS.append(k)
VV = "validation_visitor.hpp"; SP = "schema_parser.hpp"; CC = "constraints/concrete_constraints.hpp"

bug(id="c01-utf8-memo", property="C01", edits=[("utils/utf8_utils.hpp", """    uint64_t count = 0;
    size_t pos = 0;

    while (pos < length) {""", """    // Several constraints ask for the length of the same string
    static std::string lastString;
    static uint64_t lastCount = 0;
    if (lastString.size() == length && lastString.compare(0, length, s, length) == 0) {
        return lastCount;
    }

    uint64_t count = 0;
    size_t pos = 0;

    while (pos < length) {"""), ("utils/utf8_utils.hpp", """        pos += seqLen;
        count++;
    }
""", """        pos += seqLen;
        count++;
    }

    lastString.assign(s, length);
    lastCount = count;
""")])

bug(id="c01-gmtime", property="C01", edits=[(VV, """                if (!validate_date_range(year, month, day)) {
                    return false;
                }
                const auto hour""", """                if (year >= 1970 && year < 2038) {
                    const std::time_t t = static_cast<std::time_t>((year - 1970) * 365 + (year - 1969) / 4) * 86400;
                    const std::tm *tm = std::gmtime(&t);
                    const int base = tm->tm_year;
                    if (!validate_date_range(base + 1900, month, day)) {
                        return false;
                    }
                } else if (!validate_date_range(year, month, day)) {
                    return false;
                }
                const auto hour"""), (VV, "#include <cstdint>\n", "#include <cstdint>\n#include <ctime>\n")])

bug(id="c01-fail-first", property="C01", edits=[("subschema.hpp", """            if (!applyFunction(*constraint)) {
                return false;
            }
        }

        return true;""", """            if (!applyFunction(*constraint)) {
                // Values that fail tend to fail in the same way
                if (&constraint != &m_constraints.front()) {
                    std::swap(constraint, const_cast<Subschema *>(this)->m_constraints.front());
                }
                return false;
            }
        }

        return true;"""), ("subschema.hpp", """    bool applyStrict(ApplyFunction &applyFunction) const
    {
        for (auto &&constraint : m_constraints) {""", """    bool applyStrict(ApplyFunction &applyFunction) const
    {
        for (auto &&constraint : const_cast<Subschema *>(this)->m_constraints) {""")])

bug(id="c02-uri-memo", property="C02", edits=[("internal/uri.hpp", """    const auto schemeEnd = parseScheme(resolutionScope);
    std::string schemeAndAuthority;
    std::string basePath;
    if (schemeEnd.has_value()) {""", """    // References in one document share their base
    static std::string lastScope;
    static std::optional<size_t> lastSchemeEnd;
    if (lastScope != resolutionScope) {
        lastScope = resolutionScope;
        lastSchemeEnd = parseScheme(resolutionScope);
    }
    const auto schemeEnd = lastSchemeEnd;
    std::string schemeAndAuthority;
    std::string basePath;
    if (schemeEnd.has_value()) {""")])

bug(id="c02-static-visited", property="C02", edits=[(SP, """        std::vector<std::string> schemaRegistryKeysToCreate;

        return makeOrReuseSchema(""", """        // Avoid an allocation for each of the many nodes without references
        static std::vector<std::string> schemaRegistryKeysToCreate;
        std::string jsonRef;
        if (extractJsonReference(node, jsonRef)) {
            std::vector<std::string> keys;
            return makeOrReuseSchema(rootSchema, rootNode, node, currentScope,
                    nodePath, fetchDoc, parentSubschema, ownName, docCache,
                    schemaRegistry, keys);
        }
        schemaRegistryKeysToCreate.clear();

        return makeOrReuseSchema(""")])

bug(id="c03-root-early-free", property="C03", edits=[(SP, """            resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
                    subschema, referencedScope, actualJsonPointer, fetchDoc,
                    parentSchema, ownName, docCache, schemaRegistry, visitedKeys);

        } else if""", """            resolveThenPopulateSchema(rootSchema, newRootNode, referencedAdapter,
                    subschema, referencedScope, actualJsonPointer, fetchDoc,
                    parentSchema, ownName, docCache, schemaRegistry, visitedKeys);
            docCache.erase(*actualDocumentUri);

        } else if""")])

bug(id="c04-cache-nocase", property="C04", edits=[(SP, "typedef std::map<std::string, const DocumentType*> Type;", "typedef std::unordered_map<std::string, const DocumentType*> Type;"), (SP, "#include <vector>\n", "#include <unordered_map>\n#include <vector>\n")])

bug(id="c07-title-swallow", property="C07", edits=[(SP, """                rootSchema.setSubschemaDescription(&subschema,
                        itr->second.asString());
            } else {""", """#if VALIJSON_USE_EXCEPTIONS
                try {
#endif
                    rootSchema.setSubschemaDescription(&subschema, itr->second.asString());
#if VALIJSON_USE_EXCEPTIONS
                } catch (const std::bad_alloc &) {
                    // The schema works without its description
                }
#endif
            } else {""")])


bug(id="c03-null-freed", property="C03", edits=[(SP, """            // Entries for documents that could not be fetched are empty
            if (v.second) {
                freeDoc(v.second);
            }""", """            freeDoc(v.second);""")])

bug(id="c12-depth-limit", property="C12", edits=[(SP, """        const typename AdapterType::Object object = node.asObject();
        typename AdapterType::Object::const_iterator itr(object.end());

        // Check for schema identifier""", """        if (schemaRegistry.size() > 160) {
            throwRuntimeError("Schema is too complex");
        }
        const typename AdapterType::Object object = node.asObject();
        typename AdapterType::Object::const_iterator itr(object.end());

        // Check for schema identifier""")])

bug(id="c13-cache-prefix", property="C13", edits=[(VV, """            auto it = m_regexesCache.find(patternPropertyStr);
            if (it == m_regexesCache.end()) {
                it = m_regexesCache.emplace(patternPropertyStr, RegexEngine(patternPropertyStr)).first;
            }""", """            const std::string key = patternPropertyStr.size() > 48 ? patternPropertyStr.substr(0, 48) : patternPropertyStr;
            auto it = m_regexesCache.find(key);
            if (it == m_regexesCache.end()) {
                it = m_regexesCache.emplace(key, RegexEngine(patternPropertyStr)).first;
            }""")])

bug(id="c13-cache-trim", property="C13", edits=[(VV, """        std::string pattern(constraint.getPattern<std::string::allocator_type>());
        auto it = m_regexesCache.find(pattern);
        if (it == m_regexesCache.end()) {
            it = m_regexesCache.emplace(pattern, RegexEngine(pattern)).first;""", """        std::string pattern(constraint.getPattern<std::string::allocator_type>());
        std::string key(pattern);
        while (!key.empty() && key.back() == ' ') {
            key.pop_back();
        }
        auto it = m_regexesCache.find(key);
        if (it == m_regexesCache.end()) {
            it = m_regexesCache.emplace(key, RegexEngine(pattern)).first;""")])

bug(id="c15-fetch-wrapped", property="C15", edits=[(SP, """        docCacheItr->second = fetchDoc(documentUri);
""", """#if VALIJSON_USE_EXCEPTIONS
        try {
#endif
            docCacheItr->second = fetchDoc(documentUri);
#if VALIJSON_USE_EXCEPTIONS
        } catch (const std::out_of_range &) {
            docCacheItr->second = nullptr;
        }
#endif
""")])

bug(id="c15-builder-leak", property="C15", edits=[(SP, """                } catch (...) {
                    delete constraint;
                    throw;
                }
#endif
            }
        }
    }""", """                } catch (const std::exception &) {
                    delete constraint;
                    throw;
                }
#endif
            }
        }
    }""")])

bug(id="c15-engine-swallow", property="C15", edits=[(VV, """                if (RegexEngine::search(m.first, it->second)) {
                    matchFound = true;""", """                bool found = false;
#if VALIJSON_USE_EXCEPTIONS
                try {
#endif
                    found = RegexEngine::search(m.first, it->second);
#if VALIJSON_USE_EXCEPTIONS
                } catch (const std::runtime_error &) {
                    // Name is too complex to be matched
                }
#endif
                if (found) {
                    matchFound = true;""")])

bug(id="c16-static-path", property="C16", edits=[(VV, """            // Update path
            ValidationResults::Path newPath = m_path;
            newPath.push_back({
                ValidationResults::kObject,
                propertyNameKey
            });
""", """            // Update path
            static thread_local ValidationResults::Path newPath;
            newPath = m_path;
            newPath.push_back({
                ValidationResults::kObject,
                propertyNameKey
            });
""")])

bug(id="c17-replace-same-kind", property="C17", edits=[("subschema.hpp", """        m_constraints.push_back(constraint.clone(m_allocFn, m_freeFn));""", """        Constraint::OwningPointer copy = constraint.clone(m_allocFn, m_freeFn);
        for (auto &&existing : m_constraints) {
            const Constraint &a = *existing, &b = *copy;
            if (typeid(a) == typeid(b) && dynamic_cast<const constraints::UniqueItemsConstraint *>(&a)) {
                existing = std::move(copy);
                return;
            }
        }
        m_constraints.push_back(std::move(copy));"""), ("subschema.hpp", "#include <valijson/constraints/constraint.hpp>", "#include <typeinfo>\n#include <valijson/constraints/concrete_constraints.hpp>")])

bug(id="c17-ownership-late", property="C17", edits=[("schema.hpp", """        if (subschema == sharedEmptySubschema) {
            throwRuntimeError(
                    "Cannot modify the shared empty sub-schema");
        }

        auto""", """        auto""") , ("schema.hpp", """        if (subschemaSet.find(noConst) == subschemaSet.end()) {
            throwRuntimeError""", """        if (subschemaSet.find(noConst) == subschemaSet.end() && noConst != sharedEmptySubschema) {
            throwRuntimeError""")])

bug(id="c17-invalid-first", property="C17", edits=[("schema.hpp", """        mutableSubschema(subschema)->addConstraint(constraint);""", """        if (subschemaSet.empty()) {
            // Nothing to look up yet
            addConstraint(constraint);
            return;
        }

        mutableSubschema(subschema)->addConstraint(constraint);""")])

bug(id="c10-size-first", property="C10", edits=[("utils/file_utils.hpp", """    while (file.good()) {
        file.read(buffer, sizeof(buffer));
        dest.append(buffer, static_cast<size_t>(file.gcount()));
    }
""", """    std::streamoff left = offset;
    while (file.good() && left > 0) {
        file.read(buffer, sizeof(buffer));
        dest.append(buffer, static_cast<size_t>(file.gcount()));
        left -= file.gcount();
    }
    if (left <= 0) {
        return true;
    }
""")])


bug(id="c05-additional-items-path", property="C05", edits=[(SP, '                                    nodePath + "/additionalItems", fetchDoc,', '                                    nodePath + "/items/additional", fetchDoc,')])
bug(id="c13-parser-version", property="C13", edits=[(SP, """        typename DocumentCache<AdapterType>::Type docCache;
        SchemaRegistry schemaRegistry;
#if VALIJSON_USE_EXCEPTIONS
        try {""", """        if (node.isObject()) {
            const typename AdapterType::Object object = node.asObject();
            const typename AdapterType::Object::const_iterator itr = object.find("$schema");
            if (itr != object.end() && itr->second.isString() && itr->second.asString() == "http://json-schema.org/draft-07/schema#") {
                m_version = kDraft7;
            }
        }
        typename DocumentCache<AdapterType>::Type docCache;
        SchemaRegistry schemaRegistry;
#if VALIJSON_USE_EXCEPTIONS
        try {""")])
IPV4 = """            static const internal::regex ipv4Regex(
                    "^(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\\\.){3}"
                    "(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)$");
            if (internal::regex_match(s, ipv4Regex)) {"""
bug(id="c01-lazy-ipv4", property="C01", edits=[(VV, IPV4, """            static const internal::regex *ipv4Regex = nullptr;
            if (!ipv4Regex) {
                ipv4Regex = new internal::regex(
                    "^(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\\\.){3}"
                    "(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)$");
            }
            if (internal::regex_match(s, *ipv4Regex)) {""")])
bug(id="c01-relaxed-ipv4", property="C01", edits=[(VV, IPV4, """            static std::atomic<const internal::regex *> ipv4Regex(nullptr);
            if (!ipv4Regex.load(std::memory_order_relaxed)) {
                ipv4Regex.store(new internal::regex(
                    "^(?:(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\\\.){3}"
                    "(?:25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)$"), std::memory_order_relaxed);
            }
            if (internal::regex_match(s, *ipv4Regex.load(std::memory_order_relaxed))) {"""), (VV, "#include <algorithm>\n", "#include <algorithm>\n#include <atomic>\n")])
bug(id="c01-enum-hint", property="C01", edits=[(CC, "        for (const EnumValue &v : m_enumValues) {", "X")] if False else [(VV, """        unsigned int numValidated = 0;
        constraint.applyToValues(
                ValidateEquality(""", """        unsigned int numValidated = 0;
        static const EnumConstraint *lastConstraint = nullptr;
        static std::string lastString;
        if (m_strictTypes && m_target.isString()) {
            if (lastConstraint == &constraint && lastString == m_target.asString()) {
                return true;
            }
        }
        constraint.applyToValues(
                ValidateEquality("""), (VV, """        return numValidated > 0;
    }

    /**
     * @brief    Validate current node against a FormatConstraint""", """        if (m_strictTypes && m_target.isString()) {
            lastConstraint = &constraint;
            lastString = m_target.asString();
        }
        return numValidated > 0;
    }

    /**
     * @brief    Validate current node against a FormatConstraint""")])
bug(id="c13-enum-hint-tl", property="C13", edits=[(VV, """        unsigned int numValidated = 0;
        constraint.applyToValues(
                ValidateEquality(""", """        unsigned int numValidated = 0;
        static thread_local const EnumConstraint *lastConstraint = nullptr;
        static thread_local std::string lastString;
        if (m_strictTypes && m_target.isString()) {
            if (lastConstraint == &constraint && lastString == m_target.asString()) {
                return true;
            }
        }
        constraint.applyToValues(
                ValidateEquality("""), (VV, """        return numValidated > 0;
    }

    /**
     * @brief    Validate current node against a FormatConstraint""", """        if (m_strictTypes && m_target.isString()) {
            lastConstraint = &constraint;
            lastString = m_target.asString();
        }
        return numValidated > 0;
    }

    /**
     * @brief    Validate current node against a FormatConstraint""")])
bug(id="c02-locked-memo", property="C02", edits=[("internal/uri.hpp", """    const auto schemeEnd = parseScheme(resolutionScope);
    std::string schemeAndAuthority;""", """    static std::mutex mutex;
    static std::string lastRelative, lastAuthority, lastResult;
    {
        std::lock_guard<std::mutex> lock(mutex);
        if (relativeUri == lastRelative && resolutionScope.compare(0, lastAuthority.size(), lastAuthority) == 0 && !lastAuthority.empty()) {
            return lastResult;
        }
    }
    const auto schemeEnd = parseScheme(resolutionScope);
    std::string schemeAndAuthority;"""), ("internal/uri.hpp", """    // Construct final URI
    return schemeAndAuthority + normalisedPath + suffix;""", """    // Construct final URI
    std::lock_guard<std::mutex> lock(mutex);
    lastRelative = relativeUri;
    lastAuthority = resolutionScope.substr(0, resolutionScope.find_last_of('/') + 1);
    lastResult = schemeAndAuthority + normalisedPath + suffix;
    return lastResult;"""), ("internal/uri.hpp", "#include <algorithm>\n", "#include <algorithm>\n#include <mutex>\n")])
bug(id="c04-key-lower", property="C04", edits=[(SP, """        // Have we seen this document before?
        typename DocumentCache<AdapterType>::Type::iterator docCacheItr = docCache.find(documentUri);""", """        // Have we seen this document before?
        typename DocumentCache<AdapterType>::Type::iterator docCacheItr = docCache.find(documentUri);
        if (docCacheItr == docCache.end() && documentUri.back() == '/') {
            docCacheItr = docCache.find(documentUri.substr(0, documentUri.size() - 1));
        }""")])
bug(id="c04-evict", property="C04", edits=[(SP, """        docCacheItr = docCache.insert(DocCacheValueType(documentUri, nullptr)).first;
""", """        const bool full = docCache.size() >= 16;
        docCacheItr = docCache.insert(DocCacheValueType(documentUri + (full ? "#" : ""), nullptr)).first;
""")])
bug(id="c04-cache-disabled-urn", property="C04", edits=[(SP, """        docCacheItr = docCache.insert(DocCacheValueType(documentUri, nullptr)).first;
""", """        docCacheItr = docCache.insert(DocCacheValueType(internal::uri::isUrn(documentUri) ? documentUri + " " : documentUri, nullptr)).first;
""")])
bug(id="c05-array-root-remote", property="C05", edits=[(SP, """                s += internal::nodeTypeAsString(node);
                throwRuntimeError(s);""", """                s += internal::nodeTypeAsString(node);
                if (node.isArray() && nodePath.empty()) {
                    return;
                }
                throwRuntimeError(s);""")])
bug(id="c05-null-target", property="C05", edits=[(SP, """                s += internal::nodeTypeAsString(node);
                throwRuntimeError(s);""", """                s += internal::nodeTypeAsString(node);
                if (node.isNull()) {
                    return;
                }
                throwRuntimeError(s);""")])
bug(id="c05-else-swallow", property="C05", edits=[(SP, """        if (elseNode) {
            const Subschema *elseSubschema""", "X")] if False else [("internal/json_pointer.hpp", "        if (arrSize == 0 || index > arrSize - 1) {", "        if (arrSize == 0 || index > arrSize) {")])
bug(id="c05-double-decode", property="C05", edits=[("internal/json_pointer.hpp", """            n = token.find('%', n + 1)) {""", """            n = token.find('%', n)) {""")])
bug(id="c05-tilde-order", property="C05", edits=[("internal/json_pointer.hpp", """    replaceAllInPlace(token, "~1", "/");
    replaceAllInPlace(token, "~0", "~");""", """    replaceAllInPlace(token, "~0", "~");
    replaceAllInPlace(token, "~1", "/");""")])
bug(id="c06-subschema-invalid-move", property="C06", edits=[("subschema.hpp", "        std::swap(m_alwaysInvalid, other.m_alwaysInvalid);\n", "")])
bug(id="c06-memfn-move", property="C09", edits=[("subschema.hpp", "        std::swap(m_freeFn, other.m_freeFn);\n", "")])
bug(id="c08-format-catch", property="C08", edits=[(VV, """        const std::string s = m_target.asString();
        const std::string format = constraint.getFormat();
        if (format == "date") {""", """        const std::string s = m_target.asString();
        std::string format;
#if VALIJSON_USE_EXCEPTIONS
        try {
#endif
            format = constraint.getFormat();
#if VALIJSON_USE_EXCEPTIONS
        } catch (...) {
        }
#endif
        if (format == "date") {""")])
bug(id="c08-push-error", property="C08", edits=[("validation_results.hpp", """        m_errors.push_back({context, description, jsonPointer});""", """#if VALIJSON_USE_EXCEPTIONS
        try {
#endif
            m_errors.push_back({context, description, jsonPointer});
#if VALIJSON_USE_EXCEPTIONS
        } catch (const std::bad_alloc &) {
            m_errors.push_back({});
        }
#endif""")])
bug(id="c08-cache-default", property="C08", edits=[(VV, """        if (it == m_regexesCache.end()) {
            it = m_regexesCache.emplace(pattern, RegexEngine(pattern)).first;""", """        if (it == m_regexesCache.end()) {
            it = m_regexesCache.emplace(pattern, RegexEngine(std::string())).first;
            it->second = RegexEngine(pattern);""")])
bug(id="c15-cache-default", property="C15", edits=[(VV, """        if (it == m_regexesCache.end()) {
            it = m_regexesCache.emplace(pattern, RegexEngine(pattern)).first;""", """        if (it == m_regexesCache.end()) {
            it = m_regexesCache.emplace(pattern, RegexEngine(std::string())).first;
            it->second = RegexEngine(pattern);""")])
bug(id="c15-slice", property="C15", edits=[(SP, """        } catch (...) {
            freeDocumentCache<AdapterType>(docCache, freeDoc);
            throw;
        }""", """        } catch (std::exception &e) {
            freeDocumentCache<AdapterType>(docCache, freeDoc);
            throw e;
        } catch (...) {
            freeDocumentCache<AdapterType>(docCache, freeDoc);
            throw;
        }""")])
bug(id="c15-noexcept-callback", property="C15", edits=[(VV, """    static bool validationCallback(const constraints::Constraint &constraint, ValidationVisitor<AdapterType, RegexEngine> &visitor)
    {""", """    static bool validationCallback(const constraints::Constraint &constraint, ValidationVisitor<AdapterType, RegexEngine> &visitor) noexcept
    {""")])
bug(id="c11-alpha", property="C11", edits=[("internal/uri.hpp", """    const auto pos = uri.find(marker);
""", """    auto pos = uri.find(marker);
    if (pos != std::string::npos && !std::all_of(uri.begin(), uri.begin() + static_cast<std::ptrdiff_t>(pos), [](char c) { return isalpha(static_cast<unsigned char>(c)); })) {
        pos = std::string::npos;
    }
""")])
bug(id="c11-getenv", property="C11", edits=[(VV, """        const std::string s = m_target.asString();
        const std::string format = constraint.getFormat();
        if (format == "date") {""", """        const std::string s = m_target.asString();
        const std::string format = constraint.getFormat();
        if (getenv("VALIJSON_NO_FORMATS")) {
            return true;
        }
        if (format == "date") {""")])
bug(id="c11-errno", property="C11", edits=[("internal/json_pointer.hpp", """        errno = 0;
        const uint64_t index""", """        const uint64_t index""")])
bug(id="c11-address-order", property="C11", edits=[(VV, """            if (!m_validationVisitor.validateSchema(*schemaDependency)) {
                if (m_validated) {
                    *m_validated = false;
                }
                if (m_results) {""", """            if (!m_validationVisitor.validateSchema(*schemaDependency)) {
                if (m_validated) {
                    *m_validated = false;
                }
                if (m_results && (reinterpret_cast<uintptr_t>(schemaDependency) & 0x300) != 0x300) {""")])
bug(id="c12-visited-last", property="C12", edits=[(SP, """        if (std::find(newRegistryKeys.begin(), newRegistryKeys.end(), queryKey) != newRegistryKeys.end()) {
            throwRuntimeError("found cycle while resolving JSON reference");
        }

        // A reference that names""", """        if (!newRegistryKeys.empty() && newRegistryKeys.back() == queryKey) {
            throwRuntimeError("found cycle while resolving JSON reference");
        }

        // A reference that names""")])
bug(id="c14-cout", property="C14", edits=[("exceptions.hpp", """VALIJSON_NORETURN inline void throwLogicError(const std::string& msg) {
  std::cerr << msg << std::endl;
  abort();""", """VALIJSON_NORETURN inline void throwLogicError(const std::string& msg) {
  std::cout << msg << std::endl;
  abort();""")])
bug(id="c14-clog", property="C14", edits=[("exceptions.hpp", """VALIJSON_NORETURN inline void throwRuntimeError(const std::string& msg) {
  std::cerr << msg << std::endl;
  abort();""", """VALIJSON_NORETURN inline void throwRuntimeError(const std::string& msg) {
  std::clog << msg << '\\n';
  abort();""")])
bug(id="c14-printf", property="C14", edits=[("exceptions.hpp", """VALIJSON_NORETURN inline void throwRuntimeError(const std::string& msg) {
  std::cerr << msg << std::endl;
  abort();""", """VALIJSON_NORETURN inline void throwRuntimeError(const std::string& msg) {
  char line[160];
  snprintf(line, sizeof(line), "%s", msg.c_str());
  std::cerr << line << std::endl;
  abort();""")])
bug(id="c17-title-trim", property="C17", edits=[("subschema.hpp", "        m_title = title;", "        if (!title.empty()) {\n            m_title = title;\n        }")])
bug(id="c17-type-first", property="C17", edits=[("schema.hpp", """        mutableSubschema(subschema)->addConstraint(constraint);""", """        if (subschema == root()) {
            addConstraint(constraint);
            return;
        }

        mutableSubschema(subschema)->addConstraint(constraint);""")])
bug(id="c17-moved-enum", property="C17", edits=[(CC, "X", "Y")] if False else [("subschema.hpp", "        m_constraints.push_back(constraint.clone(m_allocFn, m_freeFn));", "        m_constraints.insert(m_constraints.size() > 8 ? m_constraints.end() - 1 : m_constraints.end(), constraint.clone(m_allocFn, m_freeFn));")])
bug(id="c16-visitor-tl-depth", property="C16", edits=[(VV, """    static bool validationCallback(const constraints::Constraint &constraint, ValidationVisitor<AdapterType, RegexEngine> &visitor)
    {
        return constraint.accept(visitor);""", """    static bool validationCallback(const constraints::Constraint &constraint, ValidationVisitor<AdapterType, RegexEngine> &visitor)
    {
        static thread_local const constraints::Constraint *active = nullptr;
        const constraints::Constraint *previous = active;
        if (previous == &constraint && dynamic_cast<const constraints::PropertiesConstraint *>(&constraint) && visitor.m_path.empty()) {
            return true;
        }
        active = &constraint;
        const bool result = constraint.accept(visitor);
        active = previous;
        return result;""")])
bug(id="c07-required-swallow", property="C07", edits=[(SP, """                        dependentPropertyNames.push_back(dependencyName.getString());""", """#if VALIJSON_USE_EXCEPTIONS
                        try {
#endif
                            dependentPropertyNames.push_back(dependencyName.getString());
#if VALIJSON_USE_EXCEPTIONS
                        } catch (const std::exception &) {
                            continue;
                        }
#endif""")])
