#include <ctime>
#define main combinations_main
#include "strtk_combinations.cpp"
