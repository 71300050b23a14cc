#include "agree.hpp"
#include "strtk.hpp"
#include <climits>
#include <cmath>
#include <cfloat>
using namespace vh;

static J K() { return bytes(std::string("K")); }
static J okv(bool ok, const J& v) { J j; j.add(ok); j.add(ok ? v : K()); return j; }
template <typename T> struct W { static J d(T v) { return dec((long long)v); } };
template <> struct W<unsigned long long> { static J d(unsigned long long v) { return dec(v); } };
template <> struct W<unsigned long> { static J d(unsigned long v) { return dec((unsigned long long)v); } };
template <> struct W<char> { static J d(char v) { return bytes(std::string(1, v)); } };
template <> struct W<signed char> { static J d(signed char v) { return bytes(std::string(1, (char)v)); } };
template <> struct W<unsigned char> { static J d(unsigned char v) { return bytes(std::string(1, (char)v)); } };
template <> struct W<bool> { static J d(bool v) { return bytes(std::string(1, v ? '1' : '0')); } };
template <> struct W<std::string> { static J d(const std::string& v) { return bytes(v); } };
template <typename T> static T sentinel() { return T(77); }
template <> bool sentinel<bool>() { return true; }
template <> std::string sentinel<std::string>() { return "~sentinel~"; }
template <typename T> static J one(bool ok, const T& t)
{
   if (!ok && !(t == sentinel<T>())) { J j; j.add(0); j.add(bytes(std::string("CHANGED"))); return j; }
   return okv(ok, W<T>::d(t));
}
template <typename T> static J alt(bool ok, const T& t, bool s0 /*start false for bool*/)
{
   if (!ok && t != (T)s0) { J j; j.add(0); j.add(bytes(std::string("CHANGED"))); return j; }
   return okv(ok, W<T>::d(t));
}
template <typename T> static J parse_all(const std::string& s)
{
   Agree g; Buf b(s); std::vector<char> v(s.begin(), s.end()); std::deque<char> d(s.begin(), s.end()); std::vector<unsigned char> uv(s.begin(), s.end());
   std::string ms(s);
   #define TRY(...) { T t = sentinel<T>(); bool ok = (__VA_ARGS__); g.put(one<T>(ok, t)); }
   TRY(strtk::string_to_type_converter(s, t))
   TRY(strtk::string_to_type_converter(b.cb(), b.ce(), t))
   TRY(strtk::string_to_type_converter(b.b(), b.e(), t))
   TRY(strtk::string_to_type_converter(b.ub(), b.ue(), t))
   TRY(strtk::string_to_type_converter(b.mub(), b.mub() + s.size(), t))
   TRY(strtk::string_to_type_converter(s.begin(), s.end(), t))
   TRY(strtk::string_to_type_converter(ms.begin(), ms.end(), t))
   TRY(strtk::string_to_type_converter(std::make_pair(b.cb(), b.ce()), t))
   TRY(strtk::string_to_type_converter(std::make_pair(s.begin(), s.end()), t))
   TRY(strtk::string_to_type_converter(v.begin(), v.end(), t))
   TRY(strtk::string_to_type_converter(d.begin(), d.end(), t))
   TRY(strtk::string_to_type_converter(uv.begin(), uv.end(), t))
   #undef TRY
   #define THR(...) { T t = sentinel<T>(); bool ok = true; try { t = (__VA_ARGS__); } catch (const std::invalid_argument&) { ok = false; } g.put(okv(ok, W<T>::d(t))); }
   THR(strtk::string_to_type_converter<T>(s))
   THR(strtk::string_to_type_converter<T>(b.cb(), b.ce()))
   THR(strtk::string_to_type_converter<T>(std::make_pair(s.begin(), s.end())))
   if (s.empty()) { T t = sentinel<T>(); if (strtk::convert_string_range(std::make_pair(s.begin(), s.end()), t)) throw std::runtime_error("converted nothing"); }
   else { T t = sentinel<T>(); bool ok = true; try { ok = strtk::convert_string_range(std::make_pair(s.begin(), s.end()), t); } catch (const std::invalid_argument&) { ok = false; } g.put(okv(ok, W<T>::d(t))); }
   #undef THR
   return g.get();
}
OP(int_parse)
{
   const std::string s = str(in[0]); J r;
   r.add(parse_all<short>(s)); r.add(parse_all<unsigned short>(s)); r.add(parse_all<int>(s)); r.add(parse_all<unsigned int>(s));
   r.add(parse_all<long>(s)); r.add(parse_all<unsigned long>(s)); r.add(parse_all<long long>(s)); r.add(parse_all<unsigned long long>(s));
   return r;
}
OP(small_parse)
{
   const std::string s = str(in[0]); J r;
   r.add(parse_all<char>(s)); r.add(parse_all<signed char>(s)); r.add(parse_all<unsigned char>(s)); r.add(parse_all<bool>(s)); r.add(parse_all<std::string>(s));
   return r;
}
template <typename T> static J pr(const T& v)
{
   Agree g; std::string a, b("old contents"); bool ok1 = strtk::type_to_string(v, a); bool ok2 = strtk::type_to_string(v, b); std::string c = strtk::type_to_string(v); std::string d = strtk::type_to_string<T>(v);
   T back = sentinel<T>(); bool okb = strtk::string_to_type_converter(a, back) && back == v;
   J j; j.add(bytes(a)); j.add(okb && ok1); g.put(j);
   { J k; k.add(bytes(b)); k.add(okb && ok2); g.put(k); } { J k; k.add(bytes(c)); k.add(okb); g.put(k); } { J k; k.add(bytes(d)); k.add(okb); g.put(k); }
   return g.get();
}
template <typename T> static J prt(const std::string& s)
{
   if (s[0] == '-') { if (!std::numeric_limits<T>::is_signed) return J(); long long v = std::strtoll(s.c_str(), 0, 10); if (std::strtold(s.c_str(), 0) != (long double)v) return J(); if (v < (long long)std::numeric_limits<T>::min()) return J(); return pr<T>((T)v); }
   errno = 0; unsigned long long v = std::strtoull(s.c_str(), 0, 10); if (errno) return J(); if (v > (unsigned long long)std::numeric_limits<T>::max()) return J(); return pr<T>((T)v);
}
OP(int_print)
{
   const std::string s = str(in[0]); J r;
   r.add(prt<short>(s)); r.add(prt<unsigned short>(s)); r.add(prt<int>(s)); r.add(prt<unsigned int>(s)); r.add(prt<long>(s)); r.add(prt<unsigned long>(s)); r.add(prt<long long>(s)); r.add(prt<unsigned long long>(s));
   return r;
}
OP(small_print)
{
   const std::string s = str(in[0]); J r; 
   r.add(pr<char>(s[0])[0]); r.add(pr<signed char>((signed char)s[0])[0]); r.add(pr<unsigned char>((unsigned char)s[0])[0]); r.add(pr<bool>(s[0] & 1)[0]); r.add(pr<std::string>(s)[0]);
   if (pr<char>(s[0]).size() + pr<signed char>(s[0]).size() + pr<unsigned char>(s[0]).size() + pr<bool>(s[0] & 1).size() + pr<std::string>(s).size() != 5) r.add(0);
   return r;
}
