// its main takes no arguments
#define main hexview_main0
#include "strtk_hexview.cpp"
#undef main
namespace { int call(int (*f)(), int, char**) { return f(); } int call(int (*f)(int, char**), int c, char** v) { return f(c, v); } }
int hexview_main(int c, char** v) { return call(&hexview_main0, c, v); }
