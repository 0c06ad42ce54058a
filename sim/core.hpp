// Simulation core: one run = one forked child executing one scenario whose
// every decision comes from choose().  A run is identified by its integer seed
// (search) or by its recorded choice list (replay / minimisation).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>

namespace sim {

constexpr unsigned kMaxChoices = 1u << 16;
constexpr unsigned kMaxLog = 1u << 17;
constexpr unsigned kMaxFaultKinds = 48;
constexpr unsigned kMaxSigs = 512;

enum Status : uint32_t { kUnfinished = 0, kOk = 1, kViolation = 2, kInternal = 3, kSkipped = 4 };

struct FaultCount { char name[32]; uint32_t injected; uint32_t fired; };

// Lives in memory shared between parent and child.
struct Result {
    uint32_t status;
    char cls[160];          // class of violation, stable across replays
    char detail[6000];      // free text
    char where[128];        // current step, for crash attribution
    uint64_t hash;          // hash over all events
    uint64_t steps;         // simulated steps (scheduler / operations)
    uint64_t simtime_ns;    // simulated time covered
    uint32_t evaluations;   // oracle comparisons made
    uint32_t nchoices;
    uint32_t nsigs;
    uint32_t nfaults;
    uint32_t loglen;
    uint32_t nontrivial;
    FaultCount faults[kMaxFaultKinds];
    uint64_t sigs[kMaxSigs];
    uint32_t choices[kMaxChoices];
    char log[kMaxLog];
};

extern Result *R;

// ---- used by scenarios (in the child) ----
uint32_t choose(uint32_t n);                 // 0..n-1; 0 is the "simplest" value
inline bool chance(unsigned permille) { return choose(1000) >= 1000 - permille; }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); }
uint32_t chooseLog(uint32_t n);              // 0..n-1, favours small values
template <class V> auto &pick(V &v) { return v[choose((uint32_t)v.size())]; }

void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  // event: logged and hashed
void evs(const std::string &s);
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // logged, not hashed
void where(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void faultPlanned(const char *kind, unsigned n = 1);
void faultFired(const char *kind, unsigned n = 1);
void sig(uint64_t h);                        // state/interleaving signature for coverage
void nontrivial();                           // this run exercised the property non-trivially
void evaluated(unsigned n = 1);
void steps(uint64_t n);
void simtime(uint64_t ns);
[[noreturn]] void violation(const std::string &cls, const std::string &detail);
[[noreturn]] void internalError(const std::string &detail);
[[noreturn]] void finish();
bool replaying();
// If set, called just before the process ends through violation/finish.

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h;
}
inline uint64_t hashStr(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Scenario {
    const char *property;
    void (*run)();
    const char *what;      // one line: workload
    const char *real;      // components running real code
    const char *stub;      // stubs
};
struct Registrar { Registrar(const Scenario &s); };
int driverMain(int argc, char **argv);

// Hook called in the child before/after a run (set by backends).
extern void (*onChildStart)();

} // namespace sim
