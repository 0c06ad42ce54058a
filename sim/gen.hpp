// Generators for schemas and documents (driven by choose()).
#pragma once
#include "core.hpp"
#include "json.hpp"
#include <string>
#include <vector>

namespace sim {

struct GenCfg {
    int draft = 7;             // 3, 4, 7
    int depth = 3;
    bool refs = true;          // local definitions and references
    bool formats = true;
    bool patterns = true;
    bool badPatterns = false;  // malformed patterns
    bool simplePatterns = false; // only patterns SimRegex understands
    bool custom = false;       // "x-custom" keyword handled by a builder
    bool boolSchemas = true;
    bool weak = false;         // documents are text only (weakly typed)
    bool ids = true;
    unsigned maxMembers = 4;
};

struct Gen {
    GenCfg cfg;
    std::vector<std::string> names;     // property names in play
    std::vector<std::string> texts;     // further texts in play
    std::vector<J> values;              // interesting values in play
    std::vector<std::string> defs;      // definition names
    explicit Gen(const GenCfg &c);
    J schema();                         // complete root schema
    J sub(int depth);                   // subschema
    J value(int depth);                 // arbitrary value
    J scalar();
    J doc();                            // document likely to interact with the schema
    J docFor(const J &schema, const J &root, int depth); // document shaped by the schema
    std::string str();
    int64_t num();
    std::string pattern();
private:
    void keyword(J &s, int depth);
};

J toWeak(const J &);                    // all scalars as text

} // namespace sim
