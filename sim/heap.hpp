// Heap seam: every global allocation goes through here.  The simulator decides
// which allocations made by the library fail, and keeps a ledger of the blocks
// the library obtained.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>

namespace sim { namespace heap {

// ---- scope control: allocations count (and may fail) only inside a LibCall and outside a Harness scope
struct LibCall { LibCall(); ~LibCall(); };
struct Harness { Harness(); ~Harness(); int saved; };

// ---- fault plan over counted allocations
struct Plan { bool on = false; uint64_t from = 0, count = 0; uint32_t permille = 0; };  // fail allocations [from, from+count), or each with probability
void arm(const Plan &);
void disarm();
uint64_t allocCount();       // counted allocations since resetCount
void resetCount();
uint64_t firedCount();       // failures delivered since arm
void setBudget(uint64_t n);  // step budget: more counted allocations than this is a violation (0 = off)

// ---- ledger
void ledgerReset();                          // forget everything allocated so far
size_t liveTracked();                        // blocks obtained in LibCall scope, not freed
std::string leakReport(size_t &nleaks);      // live blocks not reachable from static data
bool poisonFree(bool on);

// ---- memory functions handed to schemas: kPairs independent pairs
constexpr int kPairs = 3;
typedef void *(*AllocFn)(size_t); typedef void (*FreeFn)(void *);
AllocFn allocFn(int k); FreeFn freeFn(int k);
size_t pairLive(int k); uint64_t pairAllocs(int k);
struct PairPlan { bool on = false; uint64_t from = 0, count = 0; };
void armPair(const PairPlan &); uint64_t pairFired(); uint64_t pairCount();
void pairReset();

}} // namespace
