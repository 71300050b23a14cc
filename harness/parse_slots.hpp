#ifndef PARSE_SLOTS_HPP
#define PARSE_SLOTS_HPP
#include "agree.hpp"
// sixteen variables of rotating type: int, string, unsigned short
struct Slots {
   int i[17]; std::string s[17]; unsigned short u[17];
   Slots() { for (int k = 0; k < 17; ++k) { i[k] = -777; s[k] = "K"; u[k] = 64999; } }
   vh::J get(int n) const { vh::J j; for (int k = 1; k <= n; ++k) {
      if (k % 3 == 1) j.add(i[k] == -777 ? vh::bytes(std::string("K")) : vh::dec((long long)i[k]));
      else if (k % 3 == 2) j.add(vh::bytes(s[k]));
      else j.add(u[k] == 64999 ? vh::bytes(std::string("K")) : vh::dec((unsigned long long)u[k])); } return j; }
};
#define A1 w.i[1]
#define A2 A1, w.s[2]
#define A3 A2, w.u[3]
#define A4 A3, w.i[4]
#define A5 A4, w.s[5]
#define A6 A5, w.u[6]
#define A7 A6, w.i[7]
#define A8 A7, w.s[8]
#define A9 A8, w.u[9]
#define A10 A9, w.i[10]
#define A11 A10, w.s[11]
#define A12 A11, w.u[12]
#define A13 A12, w.i[13]
#define A14 A13, w.s[14]
#define A15 A14, w.u[15]
#define A16 A15, w.i[16]
#define UPTO9(C) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9)
#define UPTO10(C) UPTO9(C) C(10)
#define UPTO11(C) UPTO10(C) C(11)
#define UPTO12(C) UPTO11(C) C(12)
#define UPTO16(C) UPTO12(C) C(13) C(14) C(15) C(16)
#endif
