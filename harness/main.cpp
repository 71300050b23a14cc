#include "vh.hpp"
int main(int argc, char** argv) { return vh::main_(argc, argv); }
