#include <ctime>
#define main glober_main
#include "strtk_glober.cpp"
