#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the prose stays reviewable)."""
import json, os
V = "include/valijson/"
SP, SC, SU, VA, VV = V+"schema_parser.hpp", V+"schema.hpp", V+"subschema.hpp", V+"validator.hpp", V+"validation_visitor.hpp"
CC, CA, VR, EX = V+"constraints/concrete_constraints.hpp", V+"internal/custom_allocator.hpp", V+"validation_results.hpp", V+"exceptions.hpp"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Concurrent validation against one shared schema",
  "Once a schema has been built, any number of threads may validate documents against it at the same time, each with its own validator and result list and with own or shared read-only documents, without a data race. "
  "Every such call returns the same verdict and the same error list as when it runs alone, in every interleaving, including the very first use of the library in the process. "
  "A failure in one thread (an allocation that fails, a malformed pattern) is seen only by that thread.",
  ["schedules", "inputs", "fault_sequences"],
  "for every interleaving of 2-4 validating threads at the granularity of individual memory accesses, every schema and document of the generator and every allocation failure in one of the threads",
  "The test suite is single threaded; a race shows only under particular interleavings of particular keywords, and one lucky run proves nothing.",
  [VV, VA, SC, CC, VR],
  [("function-local static patterns for date, time, date-time and ipv4", VV+" (validateDate, validateTime, validateDateTime, ipv4)"),
   ("per-validator pattern cache", VA+" regexesCache"),
   ("schema is read through const access only during validation", VV+" validateSchema / Subschema::apply")],
  [("regexesCache", "compiled patterns, one cache per validator", VA)],
  ["return value of validate()", "content of the result list", "memory accesses of two threads"])

p("C02", "Concurrent schema building does not interfere",
  "Threads that build schemas at the same time, each with its own parser and schema object, may share read-only source documents and never race with each other. "
  "Each ends with the same outcome as when it runs alone: the same success or error, the same fetched documents and the same enforced constraints. "
  "This holds in every interleaving, also next to threads that are validating against other schemas.",
  ["schedules", "inputs", "fault_sequences"],
  "for every interleaving of 2-4 threads building (and validating) at memory-access granularity, with remote references resolved through per-thread fetch functions",
  "The tests build schemas one at a time; hidden process-wide state in reference resolution or parsing would pass them all.",
  [SP, V+"internal/uri.hpp", V+"internal/json_pointer.hpp", SC],
  [("reference resolution and registry local to one populate call", SP+" populateSchema / makeOrReuseSchema"), ("static URN pattern", V+"internal/uri.hpp isUrn")],
  None, ["outcome of populateSchema", "verdicts of the resulting schema"])

p("C03", "Fetched documents are released exactly once",
  "Every document obtained from the fetch function while a schema is built is handed to the release function exactly once before the build call returns or throws, and nothing else is handed to it. "
  "A fetched document is never read after it was released. "
  "Both hold whichever step fails: a later fetch, a missing target, a malformed remote schema, an exception from another user callback or an allocation.",
  ["fault_sequences", "inputs", "histories"],
  "for every generated document graph and every sequence of fetch failures, malformed documents, callback exceptions and allocation failures during one build",
  "The tests fetch one or two well-formed documents and never fail in between.",
  [SP],
  [("document cache filled on fetch, emptied on both exits", SP+" docCache, freeDocumentCache"), ("root-level and nested fetch sites", SP+" resolveThenPopulateSchema, makeOrReuseSchema")],
  [("docCache", "documents owned by the running build, by URI", SP)],
  ["fetch and release callbacks"])

p("C04", "Each remote document is fetched at most once per build",
  "During one schema build the fetch function is called at most once for any document URI, with the fully resolved URI, and only for URIs some reference actually names. "
  "Therefore a build sees exactly one version of each remote document even if the server's content changes meanwhile: all references into it are resolved against that one version.",
  ["histories", "inputs", "fault_sequences"],
  "for every generated graph of documents with root-level and nested, local, relative and absolute references and every sequence of content changes at the server between two fetches",
  "The tests use static documents and at most one reference per remote document.",
  [SP, V+"internal/uri.hpp", V+"internal/json_reference.hpp"],
  [("document cache lookup before fetching", SP+" makeOrReuseSchema"), ("URI resolution against the current scope", SP+" resolveDocumentUri")],
  [("docCache", "documents already fetched, by URI", SP)], ["sequence of fetch calls", "verdicts of the resulting schema"])

p("C05", "A reference that cannot be resolved never weakens the schema",
  "If a reference needed by a schema cannot be resolved (the fetch reports failure, the target is missing, fetching is not enabled, or the target is not a schema), building the schema reports an error instead of succeeding. "
  "If building succeeds, the schema enforces exactly the constraints found at the targets of all its references, in every referenced document. "
  "A later attempt with a fresh schema object and working fetches succeeds as if the failure had never happened.",
  ["fault_sequences", "inputs", "histories"],
  "for every generated graph of documents, every subset of fetches failing in any of the listed ways and every order of retries, compared with an independent reference resolver and validator",
  "The tests have a handful of fixed graphs, none with failures in the middle of resolution.",
  [SP, V+"internal/json_pointer.hpp", V+"internal/json_reference.hpp"],
  [("fetch result check", SP+" makeOrReuseSchema / resolveThenPopulateSchema"), ("strict pointer resolution", V+"internal/json_pointer.hpp resolveJsonPointerStrict"), ("schema registry", SP+" querySchemaRegistry / updateSchemaRegistry")],
  [("schemaRegistry", "schema already built for a scope and path", SP)], ["outcome of populateSchema", "verdicts of the resulting schema"])

p("C06", "A built schema is self-contained and movable",
  "After a schema was built, the source document, all fetched documents, the parser, its constraint builders and the adapters may be changed or destroyed without any effect on later validations. "
  "The schema may also be moved any number of times (by construction or assignment); the destination then validates exactly as the original did and the moved-from object can be destroyed or assigned to at any time.",
  ["histories", "inputs"],
  "for every generated schema over several JSON libraries and every order of destroying or overwriting inputs, moving the schema and validating",
  "The tests keep every input alive until the end of the test and move a schema in one fixed way.",
  [SC, SU, CC, V+"internal/frozen_value.hpp", SP],
  [("constraints own frozen copies of values", CC+" EnumConstraint, ConstConstraint"), ("move construction and assignment", SC), ("self references registered by id", SP+" schemaRegistry.emplace")],
  [("subschemaSet", "subschemas owned by the schema", SC)], ["verdict and errors after destruction or move", "invalid memory accesses"])

p("C07", "Allocation failure while building a schema is an exception",
  "If any single or repeated memory allocation fails while a schema is built, from the global heap or from the memory functions given to the schema, the build call ends with an exception. "
  "It never crashes, never leaks or double-frees memory, and never succeeds with a schema that enforces less than the complete one. "
  "The partly built schema can be destroyed, and a retry once memory is available succeeds.",
  ["fault_sequences", "inputs"],
  "for every allocation index at which a generated build can fail (single failures, bursts and permanent exhaustion) and both sources of memory",
  "The tests never fail an allocation.",
  [SP, SC, SU, CC, CA],
  [("clone through the schema's memory functions", V+"constraints/basic_constraint.hpp clone"), ("subschema creation and rollback", SC+" createSubschema / newSubschema"), ("allocator used by constraint containers", CA)],
  None, ["exception or success of populateSchema", "ledger of live blocks", "invalid memory accesses"])

p("C08", "Allocation failure while validating is an exception",
  "If a memory allocation fails during validation, the validation call ends with an exception; it never crashes or leaks, and never returns a verdict or an error list that differs from the fault-free one. "
  "The schema, the validator and the result list stay usable: after memory is available again the same call gives the correct answer.",
  ["fault_sequences", "inputs", "histories"],
  "for every allocation index at which a generated validation can fail, singly and repeatedly, with and without error collection",
  "The tests never fail an allocation, and swallowed exceptions inside validation would turn into wrong verdicts only then.",
  [VV, VA, VR, V+"internal/regex.hpp"],
  [("recursive visitor with result collection", VV), ("pattern cache update", VV+" regexesCache"), ("alternatives evaluated with local result lists", VV+" anyOf/oneOf/not")],
  [("regexesCache", "compiled patterns of this validator", VA)], ["return value or exception of validate()", "result list", "ledger of live blocks"])

p("C09", "Custom memory functions are paired exactly",
  "Every block obtained from the allocation function given to a schema is returned exactly once to the release function given with it, and no other pointer is ever passed to that function. "
  "This holds across building, failed building, moving and destroying schemas, also between schemas with different memory functions, and nothing of a schema's memory outlives it.",
  ["histories", "fault_sequences", "inputs"],
  "for every generated history of building, failing, moving, swapping and destroying schemas with several pairs of memory functions",
  "The tests never supply memory functions to a schema.",
  [SC, SU, V+"constraints/basic_constraint.hpp", CA, V+"constraints/constraint.hpp"],
  [("owning pointer with custom deleter", V+"constraints/constraint.hpp"), ("placement in memory from the allocation function", V+"constraints/basic_constraint.hpp clone, "+SC+" newSubschema")],
  [("m_allocFn/m_freeFn", "memory functions of a schema", SU)], ["calls to the memory functions"])

p("C10", "Loading a document from disk is complete or refused",
  "The bundled load-from-file helpers report success only when the document holds exactly the complete content of the file, however the operating system splits the reads. "
  "If opening or reading fails at any point, or the file is missing or what a torn write left of it (nothing, a part, zeros, remains of an older version) is not a complete document, the helper reports failure by its return value, with no exception, no crash and no open file left behind.",
  ["fault_sequences", "inputs"],
  "for every generated document, every supported JSON library present and every sequence of short reads, interruptions, read errors, open errors and truncations",
  "The tests read intact files from a healthy disk.",
  [V+"utils/file_utils.hpp", V+"utils/rapidjson_utils.hpp", V+"utils/nlohmann_json_utils.hpp", V+"utils/jsoncpp_utils.hpp", V+"utils/picojson_utils.hpp", V+"utils/boost_json_utils.hpp", V+"utils/property_tree_utils.hpp", V+"utils/poco_json_utils.hpp", V+"utils/qtjson_utils.hpp", V+"utils/qvariant_utils.hpp", V+"utils/yaml_cpp_utils.hpp"],
  [("whole-file read", V+"utils/file_utils.hpp loadFile"), ("parse result check", V+"utils/*_utils.hpp loadDocument")],
  None, ["return value of loadDocument", "loaded document", "file descriptors"])

p("C11", "Verdicts do not depend on the process environment",
  "For a given schema document, target document and configuration, success or failure of the build, the verdict and the error list are the same whatever the process-wide locale, wall clock, time zone, environment variables, memory layout and the error number left behind by earlier calls (errno) are, and also when these change between or during calls. "
  "The library never changes these settings itself.",
  ["configurations", "histories", "inputs"],
  "for every generated schema and document in strongly and weakly typed representation, and every sequence of locale, clock and layout changes at callback points",
  "The tests run in one locale, at one time, with one heap layout.",
  [V+"internal/basic_adapter.hpp", V+"internal/double_parser.hpp", V+"adapters/std_string_adapter.hpp", VV],
  [("text to number conversion", V+"internal/basic_adapter.hpp asInteger/maybeInteger/asDouble, "+V+"internal/double_parser.hpp"), ("date and time formats", VV), ("containers ordered by address", SC+" subschemaSet")],
  None, ["verdict", "error list", "process-wide locale before and after"])

p("C12", "Building a schema terminates on cyclic references",
  "Building a schema ends after a number of steps bounded by the size of the referenced documents, with success or an exception, whatever cycles the references form within a document or across remote documents. "
  "Recursive schemas whose cycles pass through real constraints build successfully; cycles made of nothing but references are reported as errors. "
  "It never recurses without bound or fetches without end.",
  ["inputs", "histories"],
  "for every generated finite graph of documents, with cycles of any length through root, nested, local and remote references, and step budgets measured in calls and stack depth",
  "The tests contain one or two fixed cycles.",
  [SP],
  [("cycle check for reference chains", SP+" makeOrReuseSchema newRegistryKeys"), ("registry reuse for recursive schemas", SP+" querySchemaRegistry"), ("root reference resolution", SP+" resolveThenPopulateSchema")],
  [("newRegistryKeys", "references visited before a concrete schema", SP), ("schemaRegistry", "schemas built so far", SP)], ["number of fetch calls and steps", "stack depth", "outcome of populateSchema"])

p("C13", "Reusing validators, parsers and schemas leaves no memory",
  "The result of a validation depends only on the schema, the document and the options, never on what the validator, the schema or the process did before: other schemas and documents, invalid patterns, failures and exceptions included. "
  "The same holds for a parser reused for many schemas, successful or not. "
  "Validating never changes the schema or the document.",
  ["histories", "inputs", "fault_sequences"],
  "for every generated history of builds and validations with shared validators and parsers, with failures injected in between, each step compared with a fresh instance",
  "The tests use a new validator and parser for almost every case.",
  [VA, VV, SP, VR],
  [("pattern cache keyed by pattern", VA+" regexesCache, "+VV), ("parser without per-build state", SP)],
  [("regexesCache", "compiled patterns kept between validations", VA)], ["verdict and errors at each step of a history"])

p("C14", "Without exceptions, fatal errors stop the process",
  "When the library is built with exceptions disabled, every situation that would raise one of its errors writes the error message to standard error and then terminates the process. "
  "Execution never continues past the error with a partial schema or wrong verdict, and operations that would not raise an error give the same results as with exceptions enabled.",
  ["configurations", "fault_sequences", "inputs"],
  "for every generated schema, document and fetch failure, run in both builds and compared",
  "The tests are compiled with exceptions enabled only.",
  [EX, SP, VV, SC],
  [("terminating error functions", EX), ("exception-dependent code blocks", SP+", "+SC+", "+SU)],
  None, ["process termination status", "standard error"])

p("C15", "Exceptions from user callbacks pass through unharmed",
  "An exception thrown by user code that the library calls (fetch function, custom constraint builder, custom constraint, custom pattern engine) reaches the caller of the build or validate call unchanged. "
  "Nothing is leaked or freed twice on the way, and the validator, parser and schema involved can be used again afterwards, giving the same results as if the call had not been made.",
  ["fault_sequences", "histories", "inputs"],
  "for every generated schema and document and every point at which one of the callbacks can throw, singly and repeatedly",
  "The tests have no throwing callbacks, and a handler that swallows them would pass.",
  [SP, VV, VA, V+"constraint_builder.hpp", CC],
  [("constraint builder ownership", SP+" constraintBuilders"), ("custom constraint dispatch", CC+" PolyConstraint, "+VV), ("pattern engine template parameter", VA)],
  None, ["type and identity of the exception", "ledger of live blocks", "later results"])

p("C16", "Callbacks may use the library again",
  "A fetch function may build other schemas (also with the same parser) and validate documents, and a custom constraint may validate with another validator or against another or the same schema, while the outer call is in progress. "
  "Inner and outer calls give the same results as when run one after the other, at any nesting depth.",
  ["histories", "inputs"],
  "for every generated nesting of builds and validations inside callbacks, up to a bounded depth",
  "No test nests calls.",
  [SP, VA, VV],
  [("state of a build is local to the call", SP+" populateSchema"), ("state of a validation is local to the call and validator", VA+" validate")],
  None, ["outcome of inner and outer calls"])

p("C17", "Building schemas by hand is all-or-nothing",
  "A schema assembled through the programming interface (creating subschemas, adding constraints, setting identifiers, titles, descriptions) validates by exactly the operations that reported success, in order. "
  "An operation that fails, because an allocation failed or the subschema belongs to another schema or is the shared empty one, changes nothing. "
  "The constraint objects passed in stay owned by the caller and may be changed or destroyed afterwards.",
  ["histories", "fault_sequences"],
  "for every generated sequence of construction operations over several schemas, with allocation failures at any point, compared with a model of the operations that succeeded",
  "The tests build two fixed schemas by hand, with no failing operation.",
  [SC, SU, CC, V+"constraints/basic_constraint.hpp"],
  [("ownership check before modification", SC+" mutableSubschema"), ("clone before insertion", SU+" addConstraint")],
  [("m_constraints", "constraints of a subschema", SU)], ["exceptions of the operations", "verdicts of the schema"])

# ---- pure functions of their inputs: listed for completeness, not claimed ----
def n(id, title, statement, text, files, mech):
    p(id, title, statement, ["inputs"], text, "A finite list of cases cannot cover all schemas and documents.", files, mech)
n("N01", "Keywords decide as the JSON Schema drafts say",
  "For every schema of draft 3, 4 or 7 that uses supported keywords and every document, the verdict is the one the specification of that draft prescribes.",
  "for every schema and document", [VV, SP], [("keyword parsing and checking", SP+", "+VV)])
n("N02", "All JSON libraries give the same verdict",
  "The same schema and document, represented through any supported strongly typed JSON library, give the same verdict and errors.",
  "for every schema and document representable in both libraries", [V+"adapters/"], [("adapters", V+"adapters/, "+V+"internal/basic_adapter.hpp")])
n("N03", "JSON pointers select the specified node",
  "Resolving a JSON pointer yields exactly the node the JSON Pointer standard prescribes, and an error if there is none.",
  "for every document and pointer", [V+"internal/json_pointer.hpp"], [("token decoding and descent", V+"internal/json_pointer.hpp")])
n("N04", "Relative URIs resolve as the URI standard says",
  "Resolving a relative reference against an absolute base gives the URI prescribed by the URI standard.",
  "for every base and reference", [V+"internal/uri.hpp"], [("resolveRelativeUri", V+"internal/uri.hpp")])
n("N05", "Strong and weak typing differ only as documented",
  "With weak typing a value is accepted for a type exactly when it can be converted to it; with strong typing only values of that type are.",
  "for every value and type", [VV, V+"internal/basic_adapter.hpp"], [("maybe/as conversions", V+"internal/basic_adapter.hpp")])
n("N06", "Format keywords accept exactly the valid texts",
  "Each supported format accepts a text exactly if it conforms to the standard the format names.",
  "for every text", [VV], [("format checks", VV)])
n("N07", "String lengths are counted in code points",
  "Minimum and maximum length compare the number of Unicode code points of the text.",
  "for every text", [V+"utils/utf8_utils.hpp", VV], [("u8_strlen", V+"utils/utf8_utils.hpp")])
n("N08", "Collecting errors never changes the verdict",
  "Validation with and without a result list gives the same verdict; the list is non-empty exactly when validation failed, and each entry names the failing location.",
  "for every schema and document", [VV, VR], [("result collection", VV)])
n("N09", "Malformed schemas are rejected",
  "A schema document whose keywords have values of the wrong kind is rejected with an error when it is built.",
  "for every schema document", [SP], [("keyword value checks", SP)])
n("N10", "Equality of values is JSON equality",
  "The constant, enumeration and uniqueness constraints treat two values as equal exactly when they are equal as JSON values, whichever libraries hold them.",
  "for every pair of values", [V+"internal/basic_adapter.hpp", V+"internal/adapter.hpp"], [("equalTo", V+"internal/basic_adapter.hpp")])
n("N11", "The bundled single header equals the separate headers",
  "The generated single-header bundle behaves exactly like the separate headers.",
  "for every program", ["bundle.sh"], [("bundling script", "bundle.sh")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
