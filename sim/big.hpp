#pragma once
#include "common.hpp"
namespace sim {
// a schema of the draft and documents for it, large in one dimension (scale: percentage of the usual sizes)
void bigCase(J &root, std::vector<J> &docs, int draft, unsigned docCount, unsigned scale = 100);
}
