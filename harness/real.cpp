#include "agree.hpp"
#include "strtk.hpp"
#include <climits>
#include <cmath>
#include <cfloat>
using namespace vh;

// ---------------------------------------------------------------- reals
static J robs(bool ok, long double v, bool kept)
{
   J j; j.add(ok);
   if (!ok) { j.add(kept ? 9 : 8); j.add(0).add(0).add(0).add(0); return j; }
   int neg = std::signbit(v) ? 1 : 0;
   if (std::isnan(v)) { j.add(3).add(neg).add(0).add(0).add(0); return j; }
   if (std::isinf(v)) { j.add(2).add(neg).add(0).add(0).add(0); return j; }
   if (v == 0) { j.add(0).add(neg).add(0).add(0).add(0); return j; }
   char b[64]; std::snprintf(b, sizeof b, "%.14Le", neg ? -v : v);
   char d[16]; d[0] = b[0]; std::memcpy(d + 1, b + 2, 14); d[15] = 0; std::string h(d, 9), t(d + 9, 6);
   j.add(1).add(neg).add(std::atol(h.c_str())).add(std::atol(t.c_str())).add(std::atoi(std::strchr(b, 'e') + 1));
   return j;
}
template <typename T> static J rparse(const std::string& s, bool accept_only)
{
   Agree g; Buf b(s); std::deque<char> d(s.begin(), s.end()); std::string ms(s);
   #define TRY(...) { T t = T(77); bool ok = (__VA_ARGS__); if (accept_only) g.put(ok); else g.put(robs(ok, t, t == T(77))); }
   TRY(strtk::string_to_type_converter(s, t))
   TRY(strtk::string_to_type_converter(b.cb(), b.ce(), t))
   TRY(strtk::string_to_type_converter(b.b(), b.e(), t))
   TRY(strtk::string_to_type_converter(b.ub(), b.ue(), t))
   TRY(strtk::string_to_type_converter(s.begin(), s.end(), t))
   TRY(strtk::string_to_type_converter(ms.begin(), ms.end(), t))
   TRY(strtk::string_to_type_converter(d.begin(), d.end(), t))
   TRY(strtk::string_to_type_converter(std::make_pair(s.begin(), s.end()), t))
   #undef TRY
   { T t = T(77); bool ok = true; try { t = strtk::string_to_type_converter<T>(s); } catch (const std::invalid_argument&) { ok = false; } if (accept_only) g.put(ok); else g.put(robs(ok, t, true)); }
   return g.get();
}
OP(real_parse) { const std::string s = str(in[0]); J r; r.add(rparse<float>(s, false)); r.add(rparse<double>(s, false)); r.add(rparse<long double>(s, false)); return r; }
OP(real_accept) { const std::string s = str(in[0]); Agree g; J a = rparse<float>(s, true), b = rparse<double>(s, true), c = rparse<long double>(s, true);
   for (std::size_t k = 0; k < a.size(); ++k) g.put(a[k]); for (std::size_t k = 0; k < b.size(); ++k) g.put(b[k]); for (std::size_t k = 0; k < c.size(); ++k) g.put(c[k]); return g.get(); }
template <typename T> static J rprint(T v)
{
   std::string a; strtk::type_to_string(v, a); if (strtk::type_to_string<T>(v) != a) throw std::runtime_error("type_to_string overloads differ");
   T back = T(77); bool ok = strtk::string_to_type_converter(a, back);
   J r; r.add(robs(true, v, true)); r.add(bytes(a)); r.add(robs(ok, back, false)); return r;
}
OP(real_print)
{
   const std::string s = str(in[0]);
   switch (in[1].n) { case 0: return rprint<float>((float)std::strtod(s.c_str(), 0)); case 1: return rprint<double>(std::strtod(s.c_str(), 0)); default: return rprint<long double>(std::strtold(s.c_str(), 0)); }
}
