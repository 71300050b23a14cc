#include <ctime>
#define main wordfreq_main
#include "strtk_wordfreq.cpp"
