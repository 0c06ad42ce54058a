#pragma once
#include <cstdint>
namespace sim { namespace heap {
struct Layout { bool arena = false, down = false, reuse = false; uint32_t pad = 0; int fill = -1; uint64_t seed = 1; };
void setLayout(const Layout &);   // for all allocations from now on
bool inLibrary();
}}
