#include <iostream>

#include <valijson/adapters/property_tree_adapter.hpp>
#include <valijson/utils/property_tree_utils.hpp>
#include "io.hpp"
SIM_LOADER(ptree, boost::property_tree::ptree, valijson::adapters::PropertyTreeAdapter, true, false)
