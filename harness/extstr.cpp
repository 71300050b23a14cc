#include "agree.hpp"
#include "strtk.hpp"
#include <deque>
#include <list>
using namespace vh;
namespace {
typedef std::string S; typedef strtk::ext_string E; typedef std::vector<S> VS;
struct In { S set; explicit In(const S& s) : set(s) {} bool operator()(const char c) const { return set.find(c) != S::npos; } };
bool nul(const S& s) { return s.find('\0') != S::npos; }
// one modification through entry point v (0, 1, ..); the object must answer with itself
S change(const S& w, const S& a, const S& b, std::size_t n, const S& s, int v)
{
   E e(s); E* r = &e;
   if (w == "lower") r = &e.to_lowercase(); else if (w == "upper") r = &e.to_uppercase();
   else if (w == "lead") { if (v == 1) r = &e.remove_leading(In(a)); else if (v == 2 && !nul(a) && !a.empty()) { const char* p = a.c_str(); r = &e.remove_leading(p); } else if (v == 3 && a.size() == 1) r = &e.remove_leading(strtk::single_delimiter_predicate<char>(a[0])); else r = &e.remove_leading(a); }
   else if (w == "trail") { if (v == 1) r = &e.remove_trailing(In(a)); else if (v == 2 && !nul(a) && !a.empty()) { const char* p = a.c_str(); r = &e.remove_trailing(p); } else if (v == 3 && a.size() == 1) r = &e.remove_trailing(strtk::single_delimiter_predicate<char>(a[0])); else r = &e.remove_trailing(a); }
   else if (w == "times") r = &(e *= n);
   else if (w == "minus") r = &(e -= a);
   else if (w == "replace") e.replace(a, b);
   else if (w == "append") { if (v == 1) r = &(e += a); else if (v == 2 && a.size() == 1) r = &(e << a[0]); else if (v == 3 && a.size() == 1) r = &(e += a[0]); else r = &(e << a); }
   else if (w == "number") { const int x = std::atoi(a.c_str()); if (v == 1) r = &(e += x); else if (v == 2) r = &(e << (long long)x); else r = &(e << x); }
   else if (w == "assign") { if (v == 1) { const E o(a); e = o; } else if (v == 2) { e.as_string().clear(); e << a; } else e.as_string() = a; }
   else throw std::runtime_error("step");
   if (r != &e) throw std::runtime_error("not itself");
   return e.as_string();
}
J ask(const E& e, const J& in)
{
   const S x = str(in[1]), d = str(in[2]); const std::size_t n = (std::size_t)in[4].n; const strtk::split_options::type opt = (strtk::split_options::type)in[3].n; J r;
   { Agree g; g.put(bytes(e.as_string())); g.put(bytes(e.clone())); const S c = e; g.put(bytes(c)); std::ostringstream o; o << e; g.put(bytes(o.str())); const E k(e); g.put(bytes(k.as_string())); E m; m = e; g.put(bytes(m.as_string()));
     Buf t(e.as_string()); const E q((strtk::range::adapter<char>(t.b(), t.e()))); g.put(bytes(q.as_string())); if (!nul(t.s())) { const E z(t.s().c_str()); g.put(bytes(z.as_string())); } r.add(g.one()); }
   { Agree g; int v = -77; const bool ok = e.as_type(v); J a; a.add(ok); a.add(ok ? dec((long long)v) : bytes(v == -77 ? "K" : "?")); g.put(a);
     J b; try { const int u = e.as_type<int>(); b.add(1); b.add(dec((long long)u)); } catch (const std::exception&) { b.add(0); b.add(bytes("K")); } g.put(b); r.add(g.one()); }
   { Agree g; g.put(e.imatch(x)); g.put(e.imatch(E(x))); g.put(E(x).imatch(e)); r.add(g.one()); }
   { Agree g; VS v; J c; std::size_t k;
     #define PUT(call, seq) k = e.call; if (k != (seq).size()) throw std::runtime_error("count"); g.put(jstrs(seq));
     { VS q; PUT(split(strtk::multiple_char_delimiter_predicate(d), q, opt), q) } { std::deque<S> q; PUT(split(In(d), q, opt), q) } { std::list<S> q; PUT(split(strtk::multiple_char_delimiter_predicate(d), strtk::range_to_type_back_inserter(q), opt), q) }
     if (!nul(d) && !d.empty()) { VS q; PUT(split(d.c_str(), q, opt), q) } if (d.size() == 1) { VS q; PUT(split(d[0], q, opt), q) } if (opt == strtk::split_options::default_mode) { VS q; PUT(split(In(d), q), q) }
     r.add(g.one()); }
   { Agree g; std::size_t k; { VS q; PUT(split_n(strtk::multiple_char_delimiter_predicate(d), n, q, opt), q) } { std::deque<S> q; PUT(split_n(In(d), n, strtk::range_to_type_back_inserter(q), opt), q) } if (opt == strtk::split_options::default_mode) { VS q; PUT(split_n(In(d), n, q), q) } r.add(g.one()); }
   { Agree g, c; { std::vector<int> q; c.put(e.parse(d, q)); J j; for (std::size_t k = 0; k < q.size(); ++k) j.add(dec((long long)q[k])); g.put(j); } { std::list<int> q; c.put(e.parse(d, q)); J j; for (std::list<int>::iterator k = q.begin(); k != q.end(); ++k) j.add(dec((long long)*k)); g.put(j); }
     if (!nul(d)) { std::deque<long long> q; c.put(e.parse(d.c_str(), q)); } r.add(g.one()); r.add(c.one()); }
   { Agree g; g.put(bytes((e + x).as_string())); if (x.size() == 1) g.put(bytes((e + x[0]).as_string())); if (!nul(x)) { const char* p = x.c_str(); g.put(bytes((e + p).as_string())); } if (x == "7") g.put(bytes((e + 7).as_string())); E k(e); k += x; g.put(bytes(k.as_string())); r.add(g.one()); }
   { Agree g; g.put(bytes((x + e).as_string())); if (x.size() == 1) g.put(bytes((x[0] + e).as_string())); if (!nul(x)) { const char* p = x.c_str(); g.put(bytes((p + e).as_string())); } if (x == "7") g.put(bytes((7 + e).as_string())); r.add(g.one()); }
   { Agree g; g.put(bytes((e - x).as_string())); if (!nul(x)) g.put(bytes((e - x.c_str()).as_string())); g.put(bytes((e - E(x)).as_string())); E k(e); k -= x; g.put(bytes(k.as_string())); r.add(g.one()); }
   { Agree g; g.put(bytes((e * n).as_string())); g.put(bytes((n * e).as_string())); E k(e); k *= n; g.put(bytes(k.as_string())); r.add(g.one()); }
   return r;
}
}
OP(steps)
{
   S s = str(in[0]); J l;
   for (std::size_t k = 0; k < in[1].size(); ++k) {
      const J& m = in[1][k]; Agree g; for (int v = 0; v < 4; ++v) g.put(bytes(change(m[0].s, str(m[1]), str(m[2]), (std::size_t)m[3].n, s, v)));
      s = str(g.one()); l.add(bytes(s)); }
   // the same history on one object, with a copy taken before that must not move
   E e(str(in[0])); const E before(e); S last = str(in[0]);
   for (std::size_t k = 0; k < in[1].size(); ++k) {
      const J& m = in[1][k]; const S w = m[0].s, a = str(m[1]);
      if (w == "lower") e.to_lowercase(); else if (w == "upper") e.to_uppercase(); else if (w == "lead") e.remove_leading(a); else if (w == "trail") e.remove_trailing(a);
      else if (w == "times") e *= (std::size_t)m[3].n; else if (w == "minus") e -= a; else if (w == "replace") e.replace(a, str(m[2])); else if (w == "append") e += a; else if (w == "number") e << std::atoi(a.c_str()); else e.as_string() = a;
      if (bytes(e.as_string()).size() != l[k].size()) throw std::runtime_error("history"); last = e.as_string(); if (last != str(l[k])) throw std::runtime_error("history"); }
   if (before.as_string() != str(in[0])) throw std::runtime_error("copy moved");
   J r; r.add(l); return r;
}
OP(ask)
{
   const S s = str(in[0]); const E e(s); J a = ask(e, in); if (e.as_string() != s) throw std::runtime_error("modified"); J r; r.add(a); return r;
}
OP(fixed)
{
   J r; r.add(bytes(E::all_digits().as_string())); r.add(bytes(E::all_letters().as_string())); r.add(bytes(E::all_lowercase_letters().as_string())); r.add(bytes(E::all_uppercase_letters().as_string())); r.add(bytes(E::all_chars().as_string()));
   // handing out a modified copy must not modify the next one
   E x = E::all_letters(); x.to_uppercase(); if (E::all_letters().as_string() == x.as_string()) throw std::runtime_error("shared"); return r;
}
