#ifndef BULK_HPP
#define BULK_HPP
#include "vh.hpp"
// Inputs and outputs of many thousand elements are given as a piece and how often it is repeated.
namespace vh {
inline std::string times(const std::string& u, std::size_t n) { std::string s; s.reserve(u.size() * n); while (n--) s += u; return s; }
// s as n times its own n-th part; something else is shown as it is, shortened
inline J packed(const std::string& s, std::size_t n)
{
   J j; std::size_t k = s.size() / n;
   if (s == times(s.substr(0, k), n)) { j.add(bytes(s.substr(0, k))); j.add(n); return j; }
   std::size_t x = 0; const std::string u = s.substr(0, k ? k : 1); while (x < s.size() && s[x] == u[x % u.size()]) ++x;
   j.add(J::S("irregular")); j.add(s.size()); j.add(x); j.add(bytes(s.substr(x, 60))); return j;
}
// the beginning of s as n pieces of q bytes, and the rest
inline J packed(const std::string& s, std::size_t q, std::size_t n) { J j; if (s.size() < q * n) { j.add(J::S("short")); j.add(s.size()); return j; } j.add(q ? packed(s.substr(0, q * n), n) : J()); const std::string r = s.substr(q * n); j.add(r.size()); j.add(bytes(r.substr(0, 200))); return j; }
}
#endif
