#include <iostream>

#include <valijson/adapters/qtjson_adapter.hpp>
#include <valijson/utils/qtjson_utils.hpp>
#include "io.hpp"
SIM_LOADER(qtjson, QJsonValue, valijson::adapters::QtJsonAdapter, false, false)
