#include <ctime>
#define main random_line_main
#include "strtk_random_line.cpp"
