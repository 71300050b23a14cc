#include "agree.hpp"
#include "contview.hpp"
#include "strtk.hpp"
using namespace vh;
template <typename C> void one(Agree& g, const std::string& t, Buf& b, const std::string& d, const std::size_t opt, const long n)
{
   #define OBS(CALL) { C c; old(c); std::size_t r = CALL; J j; j.add(r); j.add(view(c)); g.put(j); }
   if (n < 0) {
      OBS(strtk::parse(t, d, c, opt)) OBS(strtk::parse(b.cb(), b.ce(), d, c, opt)) OBS(strtk::parse(std::make_pair(b.cb(), b.ce()), d, c, opt))
      if (opt == 1) { OBS(strtk::parse(t, d, c)) OBS(strtk::parse(b.cb(), b.ce(), d, c)) OBS(strtk::parse(std::make_pair(b.cb(), b.ce()), d, c)) }
   } else {
      const std::size_t k = n;
      OBS(strtk::parse_n(t, d, k, c, opt)) OBS(strtk::parse_n(b.cb(), b.ce(), d, k, c, opt)) OBS(strtk::parse_n(std::make_pair(b.cb(), b.ce()), d, k, c, opt))
      if (opt == 1) { OBS(strtk::parse_n(t, d, k, c)) OBS(strtk::parse_n(b.cb(), b.ce(), d, k, c)) }
   }
   #undef OBS
}
static J merge(Agree& a, Agree& b, Agree& c)
{
   J out, r, x = a.get(), y = b.get(), z = c.get();
   if (x.size() != 1 || y.size() != 1 || z.size() != 1) { out.add(x); out.add(y); out.add(z); return out; }
   r.add(x[0][0]); r.add(x[0][1]); r.add(y[0][0]); r.add(y[0][1]); r.add(z[0][0]); r.add(z[0][1]); out.add(r); return out;
}
template <typename T> J kinds(const std::string& t, const std::string& d, const std::size_t opt, const long n)
{
   Buf b(t); Agree s, u, m;
   one<std::vector<T> >(s, t, b, d, opt, n); one<std::deque<T> >(s, t, b, d, opt, n); one<std::list<T> >(s, t, b, d, opt, n); one<std::queue<T> >(s, t, b, d, opt, n); one<std::stack<T> >(s, t, b, d, opt, n);
   one<std::set<T> >(u, t, b, d, opt, n);
   one<std::multiset<T> >(m, t, b, d, opt, n); one<std::priority_queue<T> >(m, t, b, d, opt, n);
   if (n >= 0) {
      std::vector<T> p; old(p); p.resize(n + 1); const std::size_t r = n ? strtk::parse_n(t, d, n, &p[1], opt) : strtk::parse_n(t, d, n, (T*)0, opt);
      if (r > (std::size_t)n) s.put(J(r)); else { p.resize(r + 1); J j; j.add(r); j.add(view(p)); s.put(j); }
   }
   return merge(s, u, m);
}
OP(cont) { const std::string t = str(in[0]), d = str(in[1]); return in[4].s == "i" ? kinds<int>(t, d, in[2].n, in[3].n) : kinds<std::string>(t, d, in[2].n, in[3].n); }
template <typename C> std::size_t size_of(const C& c) { return c.size(); }
template <typename C> void line(Agree& g, const std::string& t, const std::string& d, const std::size_t opt, const long n)
{
   std::ifstream s("cl.txt", std::ios::binary); C c; old(c); std::size_t r = n < 0 ? strtk::parse_line(s, d, c, opt) : strtk::parse_line_n(s, d, n, c, opt);
   J j; j.add(r); j.add(view(c)); g.put(j);
   std::ifstream x("cl.txt", std::ios::binary); x.setstate(std::ios::failbit); C e(c); r = n < 0 ? strtk::parse_line(x, d, e, opt) : strtk::parse_line_n(x, d, n, e, opt); if (r || size_of(e) != size_of(c)) throw std::runtime_error("a failed stream has no line");
}
OP(cont_lines)
{
   const std::string t = str(in[0]), d = str(in[1]); const std::size_t o = in[2].n; const long n = in[3].n; Agree s, u, m;
   { std::ofstream f("cl.txt", std::ios::binary); f.write(t.data(), t.size()); }
   line<std::vector<int> >(s, t, d, o, n); line<std::deque<int> >(s, t, d, o, n); line<std::list<int> >(s, t, d, o, n); line<std::queue<int> >(s, t, d, o, n); line<std::stack<int> >(s, t, d, o, n);
   line<std::set<int> >(u, t, d, o, n); line<std::multiset<int> >(m, t, d, o, n); line<std::priority_queue<int> >(m, t, d, o, n);
   return merge(s, u, m);
}
namespace {
typedef std::vector<std::string> V;
struct Sink { V* v; explicit Sink(V& x) : v(&x) {} template <typename It> void operator()(const std::pair<It, It>& r) const { v->push_back(std::string(r.first, r.second)); } void operator()(const std::string& s) const { v->push_back(s); } };
}
OP(filter)
{
   V f = strs(in[0]), p = strs(in[1]); const bool ci = in[2].n, allow = in[3].n; Agree g; const std::string* pb = p.empty() ? 0 : &p[0]; const std::string* pe = pb + p.size();
   { V v; strtk::filter_on_match<Sink> x(pb, pe, Sink(v), ci, allow); for (std::size_t k = 0; k < f.size(); ++k) { Buf b(f[k]); x(std::make_pair(b.cb(), b.ce())); } g.put(jstrs(v)); }
   { V v; strtk::filter_on_match<Sink> x(pb, pe, Sink(v), ci, allow); for (std::size_t k = 0; k < f.size(); ++k) x(f[k]); g.put(jstrs(v)); }
   if (allow) { V v; strtk::filter_on_match<strtk::range_to_type_back_inserter_iterator<V> > x(pb, pe, strtk::range_to_type_back_inserter(v), ci); for (std::size_t k = 0; k < f.size(); ++k) { Buf b(f[k]); x(std::make_pair(b.cb(), b.ce())); } g.put(jstrs(v)); }
   return g.get();
}
OP(wfilter)
{
   V f = strs(in[0]); const std::string p = str(in[1]); const bool allow = in[2].n; Agree g;
   { V v; Sink s(v); strtk::filter_on_wildcard_match<Sink> x(p, s, allow); for (std::size_t k = 0; k < f.size(); ++k) { Buf b(f[k]); x(std::make_pair(b.cb(), b.ce())); } g.put(jstrs(v)); }
   { V v; Sink s(v); strtk::filter_on_wildcard_match<Sink> x(p, s, allow); for (std::size_t k = 0; k < f.size(); ++k) { const std::string& q = f[k]; x(std::make_pair(q.begin(), q.end())); } g.put(jstrs(v)); }
   { V v; Sink s(v); strtk::filter_on_wildcard_match<Sink> x(p, s, allow); for (std::size_t k = 0; k < f.size(); ++k) x(f[k]); g.put(jstrs(v)); }
   return g.get();
}
OP(nonempty)
{
   const std::string t = str(in[0]), d = str(in[1]); Agree g; typedef std::back_insert_iterator<V> BI;
   { std::vector<std::pair<const char*, const char*> > r; typedef std::back_insert_iterator<std::vector<std::pair<const char*, const char*> > > RI;
     std::size_t n = strtk::for_each_token(t, d, strtk::filter_non_empty_range<RI>(std::back_inserter(r))); V all; strtk::parse(t, d, all, strtk::split_options::default_mode);
     if (n != all.size()) g.put(J(n)); V v; for (std::size_t k = 0; k < r.size(); ++k) v.push_back(std::string(r[k].first, r[k].second)); g.put(jstrs(v)); }
   { V v; Sink s(v); strtk::for_each_token(t, d, s); V w; for (std::size_t k = 0; k < v.size(); ++k) if (!v[k].empty()) w.push_back(v[k]); g.put(jstrs(w)); }
   return g.get();
}
template <typename P> J sz(P p, const std::string& s)
{
   std::vector<char> v(s.begin(), s.end()); std::deque<int> q(s.begin(), s.end()); std::list<int> l(s.begin(), s.end()); std::set<int> t; std::multiset<int> m(s.begin(), s.end()); for (std::size_t k = 0; k < s.size(); ++k) t.insert((int)k);
   bool r[] = { p(s), p(s.begin(), s.end()), p(s.data(), s.data() + s.size()), p(std::make_pair(s.data(), s.data() + s.size())), p(std::make_pair(l.begin(), l.end())), p(v), p(q), p(l), p(t), p(m) };
   for (int k = 1; k < 10; ++k) if (r[k] != r[0]) return J(-k);
   if (strtk::empty_range()(s.begin(), s.end()) != s.empty() || strtk::nonempty_range()(l.begin(), l.end()) == s.empty()) return J(-10);
   return J(r[0]);
}
OP(sizes)
{
   const std::string s = str(in[0]); J j, r;
   r.add(sz(strtk::size_equal_to<3>(), s)); r.add(sz(strtk::size_less_than<3>(), s)); r.add(sz(strtk::size_greater_than<3>(), s)); r.add(sz(strtk::size_is_even(), s)); r.add(sz(strtk::size_is_odd(), s));
   j.add(r); return j;
}
OP(cont_bulk)
{
   struct Many { explicit Many(std::size_t n) { copies() = n; } ~Many() { copies() = 0; } } m(in[4].n);
   const std::string t = times(str(in[0]), in[4].n) + str(in[6]); J x; x.add(bytes(t)); x.add(in[1]); x.add(in[2]); x.add(in[3]); x.add(in[5]);
   const J r = in[7].n ? op_cont_lines(x) : op_cont(x); return r.size() == 1 ? r[0] : r;
}
