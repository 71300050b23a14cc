#include <ctime>
#define main randomizer_main
#include "strtk_randomizer.cpp"
