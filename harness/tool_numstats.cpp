#include <ctime>
#define main numstats_main
#include "strtk_numstats.cpp"
