#include <iostream>

#include <valijson/adapters/rapidjson_adapter.hpp>
#include <valijson/utils/rapidjson_utils.hpp>
#include "io.hpp"
SIM_LOADER(rapidjson, rapidjson::Document, valijson::adapters::RapidJsonAdapter, false, false)
