#define USE_POLL
#include "sim_driver.cpp"
