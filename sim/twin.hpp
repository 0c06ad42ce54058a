// The operations of C14, compiled twice: with exceptions (part of the executable) and without (a shared library of its own).
// Both copies have private copies of every template; they exchange only plain data and J values, whose layout is the same.
#pragma once
#include <cstdint>
namespace sim {
struct TwinOut {
    uint32_t done;        // the operation list was completed
    uint32_t ops;         // operations that ended
    uint32_t err;         // how the exceptions build ended: 0 no exception, 1 runtime_error, 2 logic_error, 3 bad_alloc, 4 any other
    uint32_t errAt;       // where standard error stood when the last operation began
    uint32_t n; char what[4096]; char text[1 << 18];
};
}
extern "C" void twin_run_exc(const void *program, sim::TwinOut *out);
extern "C" void twin_run_noexc(const void *program, sim::TwinOut *out);
