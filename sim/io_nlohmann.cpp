#include <iostream>

#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/utils/nlohmann_json_utils.hpp>
#include "io.hpp"
SIM_LOADER(nlohmann, nlohmann::json, valijson::adapters::NlohmannJsonAdapter, false, false)
