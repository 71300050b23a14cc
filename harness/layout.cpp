#include "agree.hpp"
#include "strtk.hpp"
using namespace vh;
namespace {
typedef std::string S;
namespace t = strtk::text;
// every way to perform a conversion
template <typename A, typename B, typename C> S conv(const S& s, A whole, B chars, C uchars)
{
   Agree g; { S x = s; whole(x); g.put(bytes(x)); }
   { Buf b(s); chars(b.b(), b.e()); g.put(bytes(b.s())); }
   { Buf b(s); uchars(b.mub(), b.mub() + b.n); g.put(bytes(b.s())); }
   return str(g.one());
}
S step(const S& w, std::size_t a, int b, const S& s)
{
   const char c = (char)b; Agree g; const S kept = s;
   if (w == "center") g.put(bytes(t::center(a, c, s))), (c == ' ' ? g.put(bytes(t::center(a, s))) : (void)0);
   else if (w == "right") g.put(bytes(t::right_align(a, c, s))), (c == ' ' ? g.put(bytes(t::right_align(a, s))) : (void)0);
   else if (w == "left") g.put(bytes(t::left_align(a, c, s))), (c == ' ' ? g.put(bytes(t::left_align(a, s))) : (void)0);
   else if (w == "rest") { g.put(bytes(t::remaining_string(a, s, b == 1))); S x = "old"; t::remaining_string(a, s, x, b == 1); g.put(bytes(x)); if (!b) { g.put(bytes(t::remaining_string(a, s))); t::remaining_string(a, s, x); g.put(bytes(x)); } S y = s; t::remaining_string(a, y, y, b == 1); g.put(bytes(y)); }
   else if (w == "swap") { g.put(bytes(t::swap(s, a, b))); S x = s; t::swap_inplace(x, a, b); g.put(bytes(x)); }
   else if (w == "remove") { g.put(bytes(t::remove(s, a))); S x = s; t::remove_inplace(x, a); g.put(bytes(x)); }
   else if (w == "insert") { g.put(bytes(t::insert(s, a, c))); S x = s; t::insert_inplace(x, a, c); g.put(bytes(x)); }
   else if (w == "upper") { g.put(bytes(strtk::as_uppercase(s))); g.put(bytes(conv(s, [](S& x) { strtk::convert_to_uppercase(x); }, [](char* x, char* y) { strtk::convert_to_uppercase(x, y); }, [](unsigned char* x, unsigned char* y) { strtk::convert_to_uppercase(x, y); }))); }
   else if (w == "lower") { g.put(bytes(strtk::as_lowercase(s))); g.put(bytes(conv(s, [](S& x) { strtk::convert_to_lowercase(x); }, [](char* x, char* y) { strtk::convert_to_lowercase(x, y); }, [](unsigned char* x, unsigned char* y) { strtk::convert_to_lowercase(x, y); }))); Buf q(s); strtk::convert_to_lowercase(q.cb(), q.ce()); g.put(bytes(q.s())); }
   else if (w == "print") g.put(bytes(conv(s, [](S& x) { strtk::convert_to_printable_chars(x); }, [](char* x, char* y) { strtk::convert_to_printable_chars(x, y); }, [](unsigned char* x, unsigned char* y) { strtk::convert_to_printable_chars(x, y); })));
   else throw std::runtime_error("step");
   if (s != kept) throw std::runtime_error("the argument was modified");
   return str(g.one());
}
template <typename T> J laid(std::size_t w, char p, const T& v)
{
   J r; r.add(bytes(t::center(w, p, v))); r.add(bytes(t::right_align(w, p, v))); r.add(bytes(t::left_align(w, p, v)));
   r.add(bytes(t::center(w, v))); r.add(bytes(t::right_align(w, v))); r.add(bytes(t::left_align(w, v))); return r;
}
}
OP(layout)
{
   S s = str(in[0]); J r;
   for (std::size_t k = 0; k < in[1].size(); ++k) { s = step(in[1][k][0].s, (std::size_t)in[1][k][1].n, (int)in[1][k][2].n, s); r.add(bytes(s)); }
   return r;
}
OP(kinds)
{
   const S s = str(in[0]); J k;
   for (std::size_t x = 0; x < s.size(); ++x) { J c; c.add(t::is_letter(s[x])); c.add(t::is_lowercase_letter(s[x])); c.add(t::is_uppercase_letter(s[x])); c.add(t::is_digit(s[x])); c.add(t::is_hex_digit(s[x])); c.add(t::is_letter_or_digit(s[x])); k.add(c); }
   J r; r.add(k); r.add(t::is_all_letters(s)); r.add(t::is_all_digits(s)); return r;
}
OP(values)
{
   const std::size_t w = (std::size_t)in[0].n; const char p = (char)in[1].n; const S n = str(in[2]); Agree g;
   g.put(laid(w, p, std::atoi(n.c_str()))); g.put(laid(w, p, std::atoll(n.c_str()))); g.put(laid(w, p, n));
   if (std::atoi(n.c_str()) >= 0) g.put(laid(w, p, (unsigned int)std::atoi(n.c_str())));
   if (n.size() == 1) g.put(laid(w, p, n[0]));
   return g.one();
}
