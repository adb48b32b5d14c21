// The simulation program, callable.
#define main simulate_main
#define stop simulate_stop
#define inthand simulate_inthand
#include "sim/simulate.cxx"
