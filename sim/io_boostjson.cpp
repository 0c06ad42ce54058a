#include <iostream>

#include <valijson/adapters/boost_json_adapter.hpp>
#include <valijson/utils/boost_json_utils.hpp>
#include "io.hpp"
SIM_LOADER(boostjson, boost::json::value, valijson::adapters::BoostJsonAdapter, false, false)
