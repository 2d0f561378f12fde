#include "driver.hpp"
int main(int argc, char** argv) { return chk::driverMain(argc, argv); }
