#include "agree.hpp"
#include "bulk.hpp"
#include <deque>
#include <list>
#include <set>
#include "strtk.hpp"
using namespace vh;
namespace {
struct InSet { std::string d; explicit InSet(const std::string& x) : d(x) {} bool operator()(const char c) const { return d.find(c) != std::string::npos; } };
struct InInts { std::vector<int> d; explicit InInts(const std::vector<int>& x) : d(x) {} bool operator()(const int c) const { return std::find(d.begin(), d.end(), c) != d.end(); } };
J oc(const std::string& s, std::size_t n) { J j; j.add(bytes(s)); j.add(n); return j; }
J so(const std::string& s0, const std::string& s) { return oc(s, s0.size() - s.size()); }
// iterator form over an exact buffer: first size-count elements are the result
J it(const std::string& s0, Buf& b, std::size_t n) { return n <= s0.size() ? oc(std::string(b.b(), s0.size() - n), n) : J(n); }
template <typename C> J ci(const C& c, std::size_t total) { J j; j.add(jints(c)); j.add(total - c.size()); return j; }
template <typename It> J ii(It b, std::size_t total, std::size_t n) { J j; J a; if (n > total) return J(n); for (std::size_t k = 0; k < total - n; ++k, ++b) a.add((long long)*b); j.add(a); j.add(n); return j; }
}
OP(rm)
{
   const std::string rule = in[0].s, s = str(in[1]), d = str(in[2]); Agree g;
   const bool cstr = d.find('\0') == std::string::npos && d.size() <= 256;
   InSet p(d); strtk::multiple_char_delimiter_predicate mp(d);
   std::vector<std::size_t> x; for (std::size_t k = 0; k < in[3].size(); ++k) x.push_back(in[3][k].n);
   #define STRFORMS(F) \
      { std::string t(s); F(p, t); g.put(so(s, t)); } \
      { std::string t(s); F(mp, t); g.put(so(s, t)); } \
      if (d.size() == 1) { std::string t(s); F(d[0], t); g.put(so(s, t)); }
   #define SETFORMS(F) \
      { std::string t(s); F(d, t); g.put(so(s, t)); } \
      if (cstr) { std::string t(s); F(d.c_str(), t); g.put(so(s, t)); }
   #define ITFORMS(F) \
      { Buf b(s); std::size_t n = F(p, b.b(), b.e()); g.put(it(s, b, n)); } \
      { Buf b(s); std::size_t n = F(p, strtk::range::adapter<char>(b.b(), b.e())); g.put(it(s, b, n)); } \
      { std::string t(s); std::size_t n = F(mp, t.begin(), t.end()); g.put(n <= s.size() ? oc(t.substr(0, s.size() - n), n) : J(n)); }
   if (rule == "pred") { STRFORMS(strtk::remove_inplace) ITFORMS(strtk::remove_inplace) }
   else if (rule == "lead") { STRFORMS(strtk::remove_leading) SETFORMS(strtk::remove_leading) ITFORMS(strtk::remove_leading) }
   else if (rule == "trail") { STRFORMS(strtk::remove_trailing) SETFORMS(strtk::remove_trailing) ITFORMS(strtk::remove_trailing) }
   else if (rule == "both") { std::string t(s); strtk::remove_leading_trailing(d, t); g.put(so(s, t)); }
   else if (rule == "consp") { STRFORMS(strtk::remove_consecutives_inplace) SETFORMS(strtk::remove_consecutives_inplace) ITFORMS(strtk::remove_consecutives_inplace) }
   else if (rule == "conse") {
      { std::string t(s); strtk::remove_consecutives_inplace(t); g.put(so(s, t)); }
      { Buf b(s); std::size_t n = strtk::remove_consecutives_inplace(b.b(), b.e()); g.put(it(s, b, n)); }
      { Buf b(s); std::size_t n = strtk::remove_consecutives_inplace(strtk::range::adapter<char>(b.b(), b.e())); g.put(it(s, b, n)); }
      { std::vector<char> v(s.begin(), s.end()); strtk::remove_consecutives_inplace(v); g.put(so(s, std::string(v.begin(), v.end()))); }
   }
   else if (rule == "dups") {
      g.put(so(s, strtk::remove_duplicates(s)));
      { std::string t(s); std::string r = strtk::remove_duplicates_inplace(t); g.put(so(s, t)); g.put(so(s, r)); }
   }
   else if (rule == "index") {
      { std::string t(s); strtk::remove_inplace(strtk::index_remover(x), t); g.put(so(s, t)); }
      { std::deque<std::size_t> y(x.begin(), x.end()); Buf b(s); std::size_t n = strtk::remove_inplace(strtk::index_remover(y), b.b(), b.e()); g.put(it(s, b, n)); }
      { std::list<std::size_t> y(x.begin(), x.end()); std::vector<char> v(s.begin(), s.end()); std::size_t n = strtk::remove_inplace(strtk::index_remover(y), v); g.put(oc(std::string(v.begin(), v.end()), n)); }
   }
   return g.get();
}
OP(rm_ints)
{
   const std::string rule = in[0].s; const std::vector<int> s = ints(in[1]); InInts p(ints(in[2])); Agree g; const std::size_t N = s.size();
   std::vector<std::size_t> x; for (std::size_t k = 0; k < in[3].size(); ++k) x.push_back(in[3][k].n);
   std::vector<int> v(s); std::deque<int> q(s.begin(), s.end()); std::list<int> l(s.begin(), s.end());
   if (rule == "pred") {
      { std::size_t n = strtk::remove_inplace(p, v); g.put(ci(v, N)); g.put(ci(v, v.size() + n)); }
      strtk::remove_inplace(p, q); g.put(ci(q, N)); strtk::remove_inplace(p, l); g.put(ci(l, N)); }
   else if (rule == "lead") { std::size_t n = strtk::remove_leading(p, v.begin(), v.end()); g.put(ii(v.begin(), N, n)); n = strtk::remove_leading(p, q.begin(), q.end()); g.put(ii(q.begin(), N, n)); }
   else if (rule == "trail") { std::size_t n = strtk::remove_trailing(p, v.begin(), v.end()); g.put(ii(v.begin(), N, n)); n = strtk::remove_trailing(p, q.begin(), q.end()); g.put(ii(q.begin(), N, n)); }
   else if (rule == "consp") { std::size_t n = strtk::remove_consecutives_inplace(p, v.begin(), v.end()); g.put(ii(v.begin(), N, n)); n = strtk::remove_consecutives_inplace(p, l.begin(), l.end()); g.put(ii(l.begin(), N, n)); }
   else if (rule == "conse") { strtk::remove_consecutives_inplace(v); g.put(ci(v, N)); strtk::remove_consecutives_inplace(q); g.put(ci(q, N)); strtk::remove_consecutives_inplace(l); g.put(ci(l, N)); }
   else if (rule == "index") { strtk::remove_inplace(strtk::index_remover(x), v); g.put(ci(v, N)); strtk::remove_inplace(strtk::index_remover(x), q); g.put(ci(q, N)); }
   return g.get();
}
OP(rm_empty)
{
   std::vector<std::string> v = strs(in[0]); std::deque<std::string> d(v.begin(), v.end()); std::list<std::string> l(v.begin(), v.end()); Agree g;
   strtk::remove_empty_strings(v); g.put(jstrs(v)); strtk::remove_empty_strings(d); g.put(jstrs(d)); strtk::remove_empty_strings(l); g.put(jstrs(l));
   return g.get();
}
OP(rm_empty_set)
{
   std::vector<std::string> v = strs(in[0]); std::set<std::string> a(v.begin(), v.end()); std::multiset<std::string> m(v.begin(), v.end()); Agree g;
   strtk::remove_empty_strings(a); g.put(jstrs(a)); strtk::remove_empty_strings(m); g.put(jstrs(std::set<std::string>(m.begin(), m.end())));
   std::set<std::string, std::greater<std::string> > b(v.begin(), v.end()); strtk::remove_empty_strings(b); g.put(jstrs(std::set<std::string>(b.begin(), b.end())));
   std::multiset<std::string, std::greater<std::string> > w(v.begin(), v.end()); strtk::remove_empty_strings(w); g.put(jstrs(std::set<std::string>(w.begin(), w.end())));
   if (w.size() != m.size()) g.put(J(w.size()));
   std::size_t full = 0; for (std::size_t k = 0; k < v.size(); ++k) full += !v[k].empty();
   if (m.size() != full) g.put(J(m.size()));
   return g.get();
}
OP(rm_bulk)
{
   const std::string rule = in[0].s, u = str(in[1]), v = str(in[5]); const std::size_t n = in[4].n; const bool ends = rule == "lead" || rule == "trail" || rule == "both";
   const std::string a = times(u, n), s = ends ? a + v + a : rule == "dups" ? a + v : a; J x, y; x.add(in[0]); x.add(bytes(s)); x.add(in[2]);
   for (std::size_t c = 0; c < n; ++c) for (std::size_t k = 0; k < in[3].size(); ++k) y.add(c * u.size() + in[3][k].n);
   x.add(y); const J r = op_rm(x); if (r.size() != 1) return J(-1); const std::string t = str(r[0][0]); J j; j.add(r[0][1]);
   if (rule == "dups" || rule == "both") j.add(bytes(t.substr(0, 999)));
   else if (rule == "lead") { j.add(bytes(t.substr(0, v.size()))); j.add(packed(t.substr(std::min(t.size(), v.size())), n)); }
   else if (rule == "trail") j.add(packed(t, u.size(), n));
   else j.add(packed(t, n));
   return j;
}
