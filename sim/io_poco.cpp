#include <iostream>

#include <valijson/adapters/poco_json_adapter.hpp>
#include <valijson/utils/poco_json_utils.hpp>
#include "io.hpp"
SIM_LOADER(poco, Poco::Dynamic::Var, valijson::adapters::PocoJsonAdapter, false, false)
