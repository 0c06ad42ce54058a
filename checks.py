"""Configuration of the checks: what each one links, how many runs it makes."""
Q6 = ["-I/usr/include/x86_64-linux-gnu/qt6", "-I/usr/include/x86_64-linux-gnu/qt6/QtCore"]
LIBS = {
    "nlohmann": {}, "rapidjson": {}, "picojson": {},
    "jsoncpp": {"cflags": ["-I/usr/include/jsoncpp"], "ldflags": ["-ljsoncpp"]},
    "boostjson": {"ldflags": ["-lboost_json"]}, "ptree": {}, "yaml": {"ldflags": ["-lyaml-cpp"]},
    "file": {}, "poco": {"ldflags": ["-lPocoJSON", "-lPocoFoundation"]},
    "qtjson": {"cflags": Q6, "ldflags": ["-lQt6Core"]}, "qvariant": {"cflags": Q6, "ldflags": ["-lQt6Core"]},
}
FLAVOURS = {
    # sequential simulation: one thread, heap seam, AddressSanitizer
    "asan": {"cxx": "clang++", "base": ["core", "heap_asan", "common", "gen", "main"],
             "cflags": ["-std=c++17", "-O0", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-fPIC", "-DVALIJSON_USE_EXCEPTIONS=1"],
             "ldflags": ["-fsanitize=address", "-rdynamic", "-lpthread", "-ldl"]},
    # no sanitiser: system calls replaced by the executable's own
    "plain": {"cxx": "clang++", "base": ["core", "gen", "main"], "cflags": ["-std=c++17", "-O0", "-g1", "-fPIC", "-DVALIJSON_USE_EXCEPTIONS=1"], "ldflags": ["-rdynamic", "-lpthread", "-ldl"]},
    # simulated environment: locale, clock, variables and heap placement
    "env": {"cxx": "clang++", "base": ["core", "heap_env", "common", "gen", "main"], "cflags": ["-std=c++17", "-O0", "-g1", "-fPIC", "-DVALIJSON_USE_EXCEPTIONS=1"], "ldflags": ["-rdynamic", "-lpthread", "-ldl"]},
    # simulated threads: instrumented for data accesses, linked with the simulator's own runtime
    "mt": {"cxx": "clang++", "base": ["common", "gen", "core", "tsrt", "main"], "plain_units": ["core", "tsrt", "main", "gen"],
           "cflags": ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-fPIC", "-DVALIJSON_USE_EXCEPTIONS=1", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], "instr": ["-fsanitize=thread"],
           "ldflags": ["-rdynamic", "-lpthread", "-ldl"] + ["-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "memchr", "strlen", "gmtime", "localtime", "asctime", "ctime", "strtok", "setlocale", "localeconv", "strerror", "rand", "srand", "setenv", "putenv", "unsetenv", "getenv", "_ZNSt6locale6globalERKS_")]},
}
FOUR = ["nlohmann", "rapidjson", "jsoncpp", "picojson"]
CHECKS = {
    "C07": {"units": ["big", "scn_alloc"], "libs": FOUR, "quick": {"runs": 20000, "cap": 60}, "thorough": {"runs": 400000, "cap": 1500},
            "rule": "one run = one generated schema built under one to three allocation-fault plans; non-trivial when at least one allocation of the library failed; distinct by hash over all events",
            "measure": "distinct (fault kind, index of the first failing allocation) pairs"},
    "C08": {"units": ["big", "scn_alloc"], "libs": FOUR, "quick": {"runs": 20000, "cap": 60}, "thorough": {"runs": 400000, "cap": 1500},
            "rule": "one run = one generated schema with documents validated two to six times under allocation-fault plans; non-trivial when at least one allocation of the library failed; distinct by hash over all events",
            "measure": "distinct (fault kind, index of the first failing allocation) pairs"},
}
_G = {"units": ["graph", "scn_graph"], "libs": FOUR, "quick": {"runs": 16000, "cap": 60}, "thorough": {"runs": 500000, "cap": 1500}}
CHECKS.update({
    "C03": dict(_G, rule="one run = one generated world of documents built one to three times under faults; non-trivial when at least one fetched document was released; distinct by hash over all events", measure="distinct (documents released, way the build ended) pairs"),
    "C04": dict(_G, rule="one run = one generated world of documents built twice; non-trivial when at least one document was fetched; distinct by hash over all events", measure="distinct sequences of fetched document URIs"),
    "C05": dict(_G, rule="one run = one generated world of documents built two to four times; non-trivial when the schema needs at least one reference; distinct by hash over all events", measure="distinct (references needed, remote references, fetches, way the build ended) tuples"),
    "C12": dict(_G, rule="one run = one generated world of documents built once under an allocation budget; non-trivial when references form a pure cycle, a ladder, or more than two are needed; distinct by hash over all events", measure="distinct (references needed, pure cycle, fetches, way the build ended) tuples"),
})
ALL = ["nlohmann", "rapidjson", "picojson", "jsoncpp", "boostjson", "ptree", "yaml", "poco", "qtjson", "qvariant"]
_L = {"units": ["graph", "big", "case", "scn_life"], "quick": {"runs": 14000, "cap": 60}, "thorough": {"runs": 400000, "cap": 1500}}
CHECKS.update({
    "C06": dict(_L, libs=ALL, rule="one run = one generated schema taken through a history of two to ten changes to its surroundings; non-trivial when at least one change happened; distinct by hash over all events", measure="distinct (set of changes, library) pairs"),
    "C09": dict(_L, libs=FOUR, quick={"runs": 24000, "cap": 60}, rule="one run = one history of four to fifteen operations on two to four schemas; non-trivial when custom memory was used and at least one move or allocation failure happened; distinct by hash over all events", measure="distinct operation sequences"),
})
_H = {"units": ["graph", "big", "case", "scn_hist"], "quick": {"runs": 14000, "cap": 60}, "thorough": {"runs": 400000, "cap": 1500}}
CHECKS.update({
    "C13": dict(_H, libs=ALL, rule="one run = one history of validations and builds with shared objects; non-trivial when at least four validations were compared; distinct by hash over all events", measure="distinct (operation sequence, kinds of interference) pairs"),
    "C15": dict(_H, libs=FOUR, quick={"runs": 20000, "cap": 60}, rule="one run = one history of builds and validations with throwing callbacks; non-trivial when at least one callback threw; distinct by hash over all events", measure="distinct sequences of (callback, index at which it threw)"),
    "C16": dict(_H, libs=FOUR, rule="one run = two to six outer calls with nested calls in their callbacks; non-trivial when at least one nested call happened; distinct by hash over all events", measure="distinct trees of nested calls"),
})
CHECKS["C17"] = {"units": ["scn_hand"], "libs": FOUR, "quick": {"runs": 24000, "cap": 60}, "thorough": {"runs": 500000, "cap": 1500},
    "rule": "one run = one history of 8-31 construction operations on two or three schemas; non-trivial when at least one operation was made to fail; distinct by hash over all events", "measure": "distinct operation sequences"}
CHECKS["C10"] = {"flavour": "plain", "units": ["scn_io"], "loaders": ALL + ["file"], "quick": {"runs": 140000, "cap": 60}, "thorough": {"runs": 2000000, "cap": 1500},
    "rule": "one run = one to four loads into one document object; non-trivial when the file was torn or a system call was made to fail, to be short or to be interrupted; distinct by hash over all events", "measure": "distinct (library, kind of damage, kinds of failing calls, number of reads) tuples"}
_X = ["-UVALIJSON_USE_EXCEPTIONS", "-fno-exceptions", "-DJSON_USE_EXCEPTION=0", "-DPICOJSON_ASSERT(e)=do{if(!(e))::abort();}while(0)"]
CHECKS["C10"]["variants"] = [{}, {"loader_cflags": {"nlohmann": _X, "rapidjson": _X, "jsoncpp": _X, "picojson": _X, "file": _X, "boostjson": _X[:1], "qtjson": _X[:1], "qvariant": _X[:1]}}]
_M = {"flavour": "mt", "units": ["graph", "big", "case", "scn_mt"], "libs": ["nlohmann", "rapidjson", "picojson", "boostjson", "ptree"], "thorough": {"runs": 400000, "cap": 1500}, "measure": "distinct (function preempted, function continued) code-address pairs"}
CHECKS.update({
    "C01": dict(_M, quick={"runs": 12000, "cap": 60}, rule="one run = one schedule of 2-4 threads validating; non-trivial when at least two preemptions happened; distinct by hash over all events including the schedule"),
    "C02": dict(_M, quick={"runs": 16000, "cap": 60}, rule="one run = one schedule of 2-4 threads building and validating; non-trivial when at least two preemptions happened; distinct by hash over all events including the schedule"),
})
CHECKS["C11"] = {"flavour": "env", "units": ["graph", "big", "case", "scn_env"], "libs": ALL, "quick": {"runs": 16000, "cap": 60}, "thorough": {"runs": 500000, "cap": 1500},
    "locales": ["de_DE.UTF-8", "fr_FR.UTF-8", "en_US.UTF-8", "hi_IN.UTF-8", "tr_TR.UTF-8", "de_CH.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "cs_CZ.ISO-8859-2", "fa_IR.UTF-8", "et_EE.UTF-8"],
    "variants": [{}, {"cflags": ["-DVALIJSON_HAS_STD_FROM_CHARS=0", "-DVALIJSON_USE_BOOST_REGEX=1"]}],
    "rule": "one run = one case executed by two or three processes through one to three environments each; non-trivial when at least one environment differs in locale, time zone or heap placement; distinct by hash over all events", "measure": "distinct sequences of (C++ locale, C locale, time zone, heap layout, changing during calls)"}
_NE = ["-DTWIN_NOEXC", "-fno-exceptions", "-DJSON_USE_EXCEPTION=0", "-DBOOST_NO_EXCEPTIONS", "-DPICOJSON_ASSERT(e)=do{if(!(e))::abort();}while(0)"]
CHECKS["C14"] = {"flavour": "env", "units": ["graph", "big", "twin", "scn_twin"], "twin": ["twin"], "libs": FOUR, "loaders": FOUR + ["file"], "quick": {"runs": 60000, "cap": 60}, "thorough": {"runs": 1500000, "cap": 1500},
    "variants": [{"twin_cflags": _NE + ["-UVALIJSON_USE_EXCEPTIONS"]}, {"twin_cflags": _NE + ["-UVALIJSON_USE_EXCEPTIONS", "-DVALIJSON_USE_EXCEPTIONS=0"]}],
    "rule": "one run = one list of operations run by both builds; non-trivial when the build with exceptions raised an error; distinct by hash over all events", "measure": "distinct (error message, operation) pairs and results"}
_T = "deterministic simulation with fault injection: seeded search over "
_AF = _T + "allocation-failure sequences, re-execution and ledger oracle"
_GR = _T + "generated document graphs served by a simulated network with failures, independent reference model"
TECHNIQUE = {"C07": _AF, "C08": _AF, "C03": _GR, "C04": _GR, "C05": _GR, "C12": _GR,
    "C06": _T + "lifetime histories (sources overwritten and destroyed, moves, parser destruction), untouched twin as oracle",
    "C09": _T + "lifetime histories over several memory-function pairs with allocation failures, exact block ledger as oracle"}
TECHNIQUE.update({
    "C13": _T + "operation histories over reused objects with malformed patterns, allocation and network failures, fresh instances and processes as oracle",
    "C15": _T + "callback-exception sequences, exception identity, ledger and re-execution as oracle",
    "C16": _T + "re-entrant call trees from callbacks with failures, sequential re-execution as oracle"})
TECHNIQUE["C17"] = _T + "construction histories with allocation failures, failing copies and foreign targets, reference model of the successful operations as oracle"
TECHNIQUE["C10"] = _T + "torn files and system-call failure sequences on a simulated disk, independent strict parser as oracle"
TECHNIQUE["C01"] = TECHNIQUE["C02"] = _T + "thread schedules at memory-access granularity with allocation and fetch failures, vector-clock race detector and sequential re-execution as oracle"
TECHNIQUE["C11"] = _T + "sequences of process environments (locale, clock, time zone, variables, errno, stack and heap content), re-execution in other processes as oracle"
TECHNIQUE["C14"] = _T + "operation sequences with fetch failures, memory failures and malformed schemas, run in two builds of the library, the build with exceptions as oracle"
NOTES = {
    "C14": "The list runs to its first error in the build with exceptions; the other build, in a process of its own, must give the same results up to that point, write the message and end there, or complete when there is no error.",
    "C11": "One case runs in several processes, each through its own sequence of environments that change between calls and inside callbacks; outcome, verdicts and error lists must be those of an untouched process in the C locale, and the library must not call any function that changes such a setting.",
    "C01": "Real threads of which exactly one runs; the simulator preempts at chosen memory accesses, static guards, locks and atomics. Any unordered conflicting access, use of released memory, deadlock or result that differs from the call alone is a violation.",
    "C02": "As C01, for threads that build schemas: outcome, fetch sequence and enforced constraints must be those of the build alone.",
    "C10": "Every load reports success exactly when the file is a complete document (decided by an independent strict parser) and then holds its content; system-call errors, damage and interruptions must be reported by the return value, without exceptions or open files left.",
    "C17": "Every schema is compared with a model evaluator of the operations that reported success (verdicts, constraint counts and order, annotations) and with a second schema assembled without failures; ledger over all memory-function pairs.",
    "C13": "Every step of a seeded history is compared with fresh instances of validator, parser and schema; in one run of eight also with a fresh process; documents are compared with frozen copies made at the start.",
    "C15": "The exception chosen by the simulator (type, identity) must arrive at the caller; afterwards no block may be leaked and all further results must equal those of an exception-free execution.",
    "C16": "Inner and outer calls are compared with the same calls run one after the other.",
    "C07": "Seeded search over generated schemas and allocation-fault plans (single, burst, random, permanent; global heap or the schema's own functions); oracle: exception or equality with the fault-free schema, AddressSanitizer, leak scan, released documents, retry.",
    "C08": "Seeded search over generated schemas, documents and allocation-fault plans; oracle: exception or the fault-free verdict and error list, AddressSanitizer, leak scan, re-validation with the same objects.",
    "C03": "Every document handed out by the simulated network is tracked; builds end by success, fetch failure, exception from the fetch function, malformed remote content or allocation failure; each handed-out document must be released exactly once and not be touched afterwards.",
    "C04": "Fetch log of the simulated network compared with an independent resolver's set of needed documents; asynchronous changes of what the network serves between fetches must not show.",
    "C05": "Independent resolver and evaluator over generated document graphs decides whether the build must fail and which documents are accepted; repeated builds and respelled references must agree.",
    "C12": "Builds under a budget of allocations and stack over graphs with cycles, ladders and shared references; must end with success or an exception, in proportion to the graph.",
    "C06": "A schema and a twin built from the same content; the surroundings of one are overwritten, destroyed and moved in seeded order; verdicts must stay equal, AddressSanitizer watches for dangling access.",
    "C09": "Ledger per pair of memory functions: every block is returned exactly once to its own pair, nothing remains when the schema is gone, no matter which moves, assignments and failures happened.",
}
