#include <iostream>

#include <valijson/adapters/jsoncpp_adapter.hpp>
#include <valijson/utils/jsoncpp_utils.hpp>
#include "io.hpp"
SIM_LOADER(jsoncpp, Json::Value, valijson::adapters::JsonCppAdapter, false, false)
