#include "agree.hpp"
#include "strtk.hpp"
#include <climits>
#include <cmath>
#include <cfloat>
using namespace vh;

static J K() { return bytes(std::string("K")); }
static J okv(bool ok, const J& v) { J j; j.add(ok); j.add(ok ? v : K()); return j; }
template <typename T> struct W { static J d(T v) { return dec((long long)v); } };
template <> struct W<unsigned long long> { static J d(unsigned long long v) { return dec(v); } };
template <> struct W<unsigned long> { static J d(unsigned long v) { return dec((unsigned long long)v); } };
template <> struct W<char> { static J d(char v) { return bytes(std::string(1, v)); } };
template <> struct W<signed char> { static J d(signed char v) { return bytes(std::string(1, (char)v)); } };
template <> struct W<unsigned char> { static J d(unsigned char v) { return bytes(std::string(1, (char)v)); } };
template <> struct W<bool> { static J d(bool v) { return bytes(std::string(1, v ? '1' : '0')); } };
template <> struct W<std::string> { static J d(const std::string& v) { return bytes(v); } };
template <typename T> static T sentinel() { return T(77); }
template <> bool sentinel<bool>() { return true; }
template <> std::string sentinel<std::string>() { return "~sentinel~"; }
template <typename T> static J one(bool ok, const T& t)
{
   if (!ok && !(t == sentinel<T>())) { J j; j.add(0); j.add(bytes(std::string("CHANGED"))); return j; }
   return okv(ok, W<T>::d(t));
}
template <std::size_t N> static bool adc(const std::string& s, bool sg) { Buf b(s);
   bool x = sg ? strtk::fast::signed_all_digits_check<N>(s) : strtk::fast::all_digits_check<N>(s);
   bool y = sg ? strtk::fast::signed_all_digits_check<N, const char*>(b.cb()) : strtk::fast::all_digits_check<N, const char*>(b.cb());
   if (x != y) throw std::runtime_error("fast check overloads differ"); return x; }
#define NSW(F, n, ...) switch (n) { \
  case 1: F<1>(__VA_ARGS__); break; case 2: F<2>(__VA_ARGS__); break; case 3: F<3>(__VA_ARGS__); break; case 4: F<4>(__VA_ARGS__); break; case 5: F<5>(__VA_ARGS__); break; \
  case 6: F<6>(__VA_ARGS__); break; case 7: F<7>(__VA_ARGS__); break; case 8: F<8>(__VA_ARGS__); break; case 9: F<9>(__VA_ARGS__); break; case 10: F<10>(__VA_ARGS__); break; \
  case 11: F<11>(__VA_ARGS__); break; case 12: F<12>(__VA_ARGS__); break; case 13: F<13>(__VA_ARGS__); break; case 14: F<14>(__VA_ARGS__); break; case 15: F<15>(__VA_ARGS__); break; \
  case 16: F<16>(__VA_ARGS__); break; case 17: F<17>(__VA_ARGS__); break; case 18: F<18>(__VA_ARGS__); break; case 19: F<19>(__VA_ARGS__); break; default: break; }
template <std::size_t N> static void adc2(const std::string& s, bool sg, Agree& g) { g.put(adc<N>(s, sg)); }
OP(fast_check)
{
   const std::string s = str(in[0]); Buf b(s); J r;
   { Agree g; g.put(strtk::fast::all_digits_check(s)); g.put(strtk::fast::all_digits_check(b.cb(), b.ce())); g.put(strtk::fast::all_digits_check(s.size(), b.cb())); NSW(adc2, s.size(), s, false, g) r.add(g.get()); }
   { Agree g; g.put(strtk::fast::signed_all_digits_check(s)); g.put(strtk::fast::signed_all_digits_check(b.cb(), b.ce())); g.put(strtk::fast::signed_all_digits_check(s.size(), b.cb())); NSW(adc2, s.size(), s, true, g) r.add(g.get()); }
   return r;
}
template <typename T> static J fc(const std::string& s, bool digits)
{
   Agree g; Buf b(s);
   for (int chk = digits ? 0 : 1; chk < 2; ++chk) {
      { T t = 77; bool ok = strtk::fast::numeric_convert(s, t, chk != 0); g.put(one<T>(ok, t)); }
      { T t = 77; bool ok = strtk::fast::numeric_convert(s.size(), b.cb(), t, chk != 0); g.put(one<T>(ok, t)); }
      { T t = 77; bool ok = strtk::fast::numeric_convert(s.size(), s.begin(), t, chk != 0); g.put(one<T>(ok, t)); }
   }
   return g.get();
}
template <std::size_t N> static void ncv(const std::string& s, bool digits, Agree& g)
{
   Buf b(s);
   for (int chk = digits ? 0 : 1; chk < 2; ++chk) {
      { unsigned long long t = 77; strtk::fast::numeric_convert<N>(s, t, chk != 0); g.put(dec(t)); }
      { unsigned long long t = 77; strtk::fast::numeric_convert<N>(b.cb(), t, chk != 0); g.put(dec(t)); }
   }
}
static J two() { J j; j.add(2); j.add(K()); J l; l.add(j); return l; }
OP(fast_conv)
{
   const std::string s = str(in[0]); J r; bool digits = true; for (std::size_t k = 0; k < s.size(); ++k) if (s[k] < '0' || s[k] > '9') digits = false;
   r.add(fc<unsigned long long>(s, digits));
   r.add(s.size() > 18 ? two() : fc<long long>(s, digits));
   r.add(s.size() > 9 ? two() : fc<int>(s, digits));
   Agree g; NSW(ncv, s.size(), s, digits, g) if (s.empty()) { unsigned long long t = 77; strtk::fast::numeric_convert<0>(s, t, true); g.put(dec(t)); }
   r.add(g.get());
   return r;
}
template <std::size_t N> static void snc(const std::string& s, Agree& g)
{
   Buf b(s);
   { long long t = 77; bool ok = strtk::fast::signed_numeric_convert<N>(s, t, true); g.put(one<long long>(ok, t)); }
   { long long t = 77; bool ok = strtk::fast::signed_numeric_convert<N>(b.cb(), t, true); g.put(one<long long>(ok, t)); }
}
OP(fast_signed)
{
   const std::string s = str(in[0]); Buf b(s); J r; Agree g;
   { long long t = 77; bool ok = strtk::fast::signed_numeric_convert(s, t, true); g.put(one<long long>(ok, t)); }
   { long long t = 77; bool ok = strtk::fast::signed_numeric_convert(b.cb(), b.ce(), t, true); g.put(one<long long>(ok, t)); }
   if (s.size() <= 19) { NSW(snc, s.size(), s, g) }
   r.add(g.get()[0]); for (std::size_t k = 1; k < g.get().size(); ++k) r.add(g.get()[k]);
   return r;
}
// digits taken on trust: no check is asked for
template <std::size_t N> static void ffu(const std::string& s, Agree& g)
{
   Buf b(s); { unsigned long long t = 77; strtk::fast::numeric_convert<N>(s, t); g.put(okv(true, dec(t))); }
   { unsigned long long t = 77; strtk::fast::numeric_convert<N>(b.cb(), t); g.put(okv(true, dec(t))); }
}
template <std::size_t N> static void ffs(const std::string& s, Agree& g)
{
   Buf b(s); { long long t = 77; const bool ok = strtk::fast::signed_numeric_convert<N>(s, t); g.put(one<long long>(ok, t)); }
   { long long t = 77; const bool ok = strtk::fast::signed_numeric_convert<N>(b.cb(), t); g.put(one<long long>(ok, t)); }
}
#define NSWX(F, n, ...) NSW(F, n, __VA_ARGS__) if (20 == (n)) F<20>(__VA_ARGS__);
OP(fast_free)
{
   const std::string s = str(in[0]), u = ('-' == s[0] || '+' == s[0]) ? s.substr(1) : s; Buf b(s), c(u); J r;
   {
      Agree g;
      { unsigned long long t = 77; const bool ok = strtk::fast::numeric_convert(u, t); g.put(one<unsigned long long>(ok, t)); }
      { unsigned long long t = 77; const bool ok = strtk::fast::numeric_convert(u.size(), c.cb(), t); g.put(one<unsigned long long>(ok, t)); }
      { unsigned long long t = 77; const bool ok = strtk::fast::numeric_convert(u.size(), u.begin(), t); g.put(one<unsigned long long>(ok, t)); }
      NSWX(ffu, u.size(), u, g)
      r.add(g.get());
   }
   std::string z = u; while (!z.empty() && '0' == z[0]) z.erase(0, 1);
   if (z.size() > 19 || (z.size() == 19 && z > "9223372036854775807")) r.add(two());
   else
   {
      Agree g;
      { long long t = 77; const bool ok = strtk::fast::signed_numeric_convert(s, t); g.put(one<long long>(ok, t)); }
      { long long t = 77; const bool ok = strtk::fast::signed_numeric_convert(b.cb(), b.ce(), t); g.put(one<long long>(ok, t)); }
      { long long t = 77; const bool ok = strtk::fast::signed_numeric_convert(s.begin(), s.end(), t); g.put(one<long long>(ok, t)); }
      if (s.size() <= 20) { NSWX(ffs, s.size(), s, g) }
      r.add(g.get());
   }
   return r;
}
