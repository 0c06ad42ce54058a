#define PICOJSON_USE_INT64
#include <iostream>

#include <valijson/adapters/picojson_adapter.hpp>
#include <valijson/utils/picojson_utils.hpp>
#include "io.hpp"
SIM_LOADER(picojson, picojson::value, valijson::adapters::PicoJsonAdapter, false, false)
