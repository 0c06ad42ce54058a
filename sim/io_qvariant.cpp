#include <iostream>

#include <valijson/adapters/qvariant_adapter.hpp>
#include <valijson/utils/qvariant_utils.hpp>
#include "io.hpp"
SIM_LOADER(qvariant, QVariant, valijson::adapters::QtVariantAdapter, false, false)
