#include "core.hpp"
int main(int argc, char **argv) { return sim::driverMain(argc, argv); }
