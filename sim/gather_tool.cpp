// The program that collects ephemerides and observations, callable.
#define main gather_main
#define stop gather_stop
#define inthand gather_inthand
#include "tools/gather_ephemeris.cxx"
