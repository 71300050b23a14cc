#include "agree.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
using namespace vh;
namespace {
typedef std::vector<std::string> VS;
template <typename C> J list_of(const C& c) { J j; for (typename C::const_iterator x = c.begin(); x != c.end(); ++x) j.add(bytes(*x)); return j; }
template <typename C> std::string app(const std::string& o, const std::string& d, const C& c) { std::string s = o; strtk::join(s, d, c); return s; }
template <typename T> J joins(const std::string& o, const std::string& d, const std::vector<T>& v)
{
   Agree q, s, m; const std::list<T> l(v.begin(), v.end()); const std::deque<T> k(v.begin(), v.end()); const std::set<T> st(v.begin(), v.end()); const std::multiset<T> ms(v.begin(), v.end());
   q.put(bytes(app(o, d, v))); q.put(bytes(app(o, d, l))); q.put(bytes(app(o, d, k))); q.put(bytes(app(o, d, std::make_pair(v.begin(), v.end())))); { std::string x = o; strtk::join(x, d, l.begin(), l.end()); q.put(bytes(x)); }
   q.put(bytes(o + strtk::join(d, v))); q.put(bytes(o + strtk::join(d, l))); q.put(bytes(o + strtk::join(d, k))); q.put(bytes(o + strtk::join(d, v.begin(), v.end()))); q.put(bytes(o + strtk::join(d, std::make_pair(l.begin(), l.end()))));
   s.put(bytes(app(o, d, st))); s.put(bytes(o + strtk::join(d, st))); m.put(bytes(app(o, d, ms))); m.put(bytes(o + strtk::join(d, ms)));
   J r; r.add(q.one()); r.add(s.one()); r.add(m.one()); return r;
}
template <typename P> J joins_if(const std::string& o, const std::string& d, const VS& v, P p)
{
   Agree q, s, m; const std::list<std::string> l(v.begin(), v.end()); const std::deque<std::string> k(v.begin(), v.end()); const std::set<std::string> st(v.begin(), v.end()); const std::multiset<std::string> ms(v.begin(), v.end());
   #define A(x, g) { std::string t = o; strtk::join_if(t, d, p, x); g.put(bytes(t)); g.put(bytes(o + strtk::join_if(d, p, x))); }
   A(v, q) A(l, q) A(k, q) A(std::make_pair(v.begin(), v.end()), q) A(st, s) A(ms, m)
   { std::string t = o; strtk::join_if(t, d, p, l.begin(), l.end()); q.put(bytes(t)); } q.put(bytes(o + strtk::join_if(d, p, l.begin(), l.end())));
   J r; r.add(q.one()); r.add(s.one()); r.add(m.one()); return r;
}
template <std::size_t N> J by_size(const J& in, const std::string& o, const std::string& d, const VS& v)
{
   const std::string& w = in[3].s;
   if (w == "eq") return joins_if(o, d, v, strtk::size_equal_to<N>()); if (w == "lt") return joins_if(o, d, v, strtk::size_less_than<N>()); if (w == "gt") return joins_if(o, d, v, strtk::size_greater_than<N>());
   if (w == "even") return joins_if(o, d, v, strtk::size_is_even()); return joins_if(o, d, v, strtk::size_is_odd());
}
}
OP(construct)
{
   std::string o = str(in[0]); const std::string d = str(in[1]); const VS v = strs(in[2]);
   // numbers in the even places
   long long n[13]; for (std::size_t k = 0; k < 13; ++k) n[k] = k < v.size() && k % 2 ? std::atoll(v[k].c_str()) : 0;
   #define S(k) v[k]
   #define I(k) (int)n[k]
   #define L(k) n[k]
   #define U(k) (unsigned short)n[k]
   switch (v.size()) {
      case 2: strtk::construct(o, d, S(0), I(1)); break; case 3: strtk::construct(o, d, S(0), I(1), S(2)); break; case 4: strtk::construct(o, d, S(0), I(1), S(2), L(3)); break;
      case 5: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4)); break; case 6: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4), U(5)); break;
      case 7: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4), U(5), S(6)); break; case 8: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4), U(5), S(6), I(7)); break;
      case 9: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4), U(5), S(6), I(7), S(8)); break; case 10: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4), U(5), S(6), I(7), S(8), L(9)); break;
      case 11: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4), U(5), S(6), I(7), S(8), L(9), S(10)); break;
      case 12: strtk::construct(o, d, S(0), I(1), S(2), L(3), S(4), U(5), S(6), I(7), S(8), L(9), S(10), I(11)); break;
      default: throw std::runtime_error("arity"); }
   J r; r.add(bytes(o)); return r;
}
OP(join)
{
   const std::string o = str(in[0]), d = str(in[1]); const VS v = strs(in[2]); const J r = joins<std::string>(o, d, v);
   bool nul = false; for (std::size_t k = 0; k < v.size(); ++k) nul = nul || v[k].find('\0') != std::string::npos;
   if (!nul) { std::vector<std::vector<char> > c; std::vector<char*> a; for (std::size_t k = 0; k < v.size(); ++k) { c.push_back(std::vector<char>(v[k].begin(), v[k].end())); c.back().push_back(0); } for (std::size_t k = 0; k < c.size(); ++k) a.push_back(c[k].data());
      Agree g; g.put(r[0]); std::string s = o; strtk::join(s, d, (int)a.size(), a.data()); g.put(bytes(s)); g.put(bytes(o + strtk::join(d, (int)a.size(), a.data()))); g.one(); }
   return r;
}
OP(joini) { const VS v = strs(in[2]); std::vector<int> n; for (std::size_t k = 0; k < v.size(); ++k) n.push_back(std::atoi(v[k].c_str())); J r = joins<int>(str(in[0]), str(in[1]), n), out;
   // sets of numbers are ordered as numbers: report them as written out
   out.add(r[0]); std::string x = str(in[0]); const std::string d = str(in[1]); (void)x; out.add(r[1]); out.add(r[2]); return out; }
OP(join_if)
{
   const std::string o = str(in[0]), d = str(in[1]); const VS v = strs(in[2]);
   switch (in[4].n) { case 0: return by_size<0>(in, o, d, v); case 1: return by_size<1>(in, o, d, v); case 2: return by_size<2>(in, o, d, v); case 3: return by_size<3>(in, o, d, v); case 4: return by_size<4>(in, o, d, v); default: return by_size<7>(in, o, d, v); }
}
OP(replicate)
{
   const std::size_t n = in[0].n; const std::string s = str(in[1]), o = str(in[2]); std::string t = o, u = s; strtk::replicate(n, s, t); strtk::replicate_inplace(n, u);
   J r; r.add(bytes(strtk::replicate(n, s))); r.add(bytes(t)); r.add(bytes(u)); return r;
}
OP(bracketize)
{
   const std::string o = str(in[0]), a = str(in[1]), b = str(in[2]); VS v = strs(in[3]); std::list<std::string> l(v.begin(), v.end()); std::deque<std::string> k(v.begin(), v.end()); std::set<std::string> st(v.begin(), v.end()); std::multiset<std::string> ms(v.begin(), v.end());
   Agree q, s, m;
   #define B(x, g) { std::string t = o; strtk::bracketize(t, a, b, x); g.put(bytes(t)); g.put(bytes(o + strtk::bracketize(a, b, x))); }
   B(v, q) B(l, q) B(k, q) B(st, s) B(ms, m) { std::string t = o; strtk::bracketize(t, a, b, l.begin(), l.end()); q.put(bytes(t)); } q.put(bytes(o + strtk::bracketize(a, b, v.begin(), v.end())));
   J r; r.add(q.one()); r.add(s.one()); r.add(m.one()); return r;
}
OP(cut)
{
   const std::size_t a = in[0].n, b = in[1].n; const VS v = strs(in[2]); const std::list<std::string> l(v.begin(), v.end()); Agree g, h;
   { VS o; strtk::cut(a, b, v.begin(), v.end(), std::back_inserter(o)); g.put(list_of(o)); } { VS o; strtk::cut(a, b, v, std::back_inserter(o)); g.put(list_of(o)); } { VS o; strtk::cut(a, b, l, std::back_inserter(o)); g.put(list_of(o)); }
   { VS o = v; strtk::cut_inplace(a, b, o.begin(), o.end()); h.put(list_of(o)); } { std::list<std::string> o = l; strtk::cut_inplace(a, b, o.begin(), o.end()); h.put(list_of(o)); }
   J r; r.add(g.one()); r.add(h.one()); return r;
}
OP(translate)
{
   J r; const std::string a = str(in[0]), b = str(in[1]), s = str(in[2]); std::unique_ptr<strtk::translation_table> t; try { t.reset(new strtk::translation_table(a, b)); } catch (const std::runtime_error&) { r.add(0); r.add(J()); return r; }
   Agree g; g.put(bytes(strtk::translate(*t, s))); { std::string x = s; strtk::translate_inplace(*t, x); g.put(bytes(x)); }
   { std::vector<unsigned char> u(s.begin(), s.end()); std::transform(u.begin(), u.end(), u.begin(), *t); g.put(bytes(std::string(u.begin(), u.end()))); }
   r.add(1); r.add(g.one()); return r;
}
OP(weave)
{
   const std::size_t step = in[0].n; Agree g;
   { std::vector<int> v; for (std::size_t k = 0; k < in[2].size(); ++k) v.push_back((int)in[2][k].n); std::vector<int> o; const std::size_t n = strtk::inserter(strtk::interval_inserter<int>(step, (int)in[1].n), v.begin(), v.end(), std::back_inserter(o));
     J a; for (std::size_t k = 0; k < o.size(); ++k) a.add(o[k]); J r; r.add(a); r.add((long long)n); g.put(r); }
   { const std::string s = str(in[2]); std::string o; const std::size_t n = strtk::inserter(strtk::interval_inserter<char>(step, (char)in[1].n), s.data(), s.data() + s.size(), std::back_inserter(o)); J r; r.add(bytes(o)); r.add((long long)n); g.put(r); }
   return g.one();
}
OP(build)
{
   const VS v = strs(in[0]); strtk::build_string b, c(v.size());
   for (std::size_t k = 0; k < v.size(); ++k) { const bool num = k % 3 == 1; if (num) { b << std::atoi(v[k].c_str()); c << (long long)std::atoll(v[k].c_str()); } else if (v[k].size() == 1 && k % 3 == 2) { b << v[k][0]; c << v[k].c_str()[0]; } else { b << v[k]; c << v[k]; } }
   Agree g; g.put(bytes(b.to_str())); g.put(bytes(c.to_str())); g.put(bytes(std::string((const char*)b, b.to_str().size()))); J r; r.add(g.one()); return r;
}
namespace { J again(const J& u, std::size_t n) { J r; while (n--) for (std::size_t k = 0; k < u.size(); ++k) r.add(u[k]); return r; }
// what follows o
J after(const std::string& o, const std::string& s, std::size_t n) { if (s.compare(0, o.size(), o) != 0) return J(-9); return packed(s.substr(o.size()), n); } }
OP(join_bulk) { const std::size_t n = in[3].n; const std::string o = str(in[0]), d = str(in[1]); J c; c.add(in[0]); c.add(in[1]); c.add(again(in[2], n)); const J x = op_join(c); J r; r.add(after(o, str(x[0]) + d, n)); r.add(x[1]); r.add(x[2].size()); return r; }
OP(join_if_bulk) { const std::size_t n = in[5].n; const std::string o = str(in[0]), d = str(in[1]); J c; c.add(in[0]); c.add(in[1]); c.add(again(in[2], n)); c.add(in[3]); c.add(in[4]); const J x = op_join_if(c); J r; r.add(after(o, str(x[0]) + (x[0].size() > o.size() ? d : ""), n)); r.add(x[1]); r.add(x[2].size()); return r; }
OP(replicate_bulk) { const std::size_t n = in[0].n; const J x = op_replicate(in); J r; r.add(packed(str(x[0]), n)); r.add(after(str(in[2]), str(x[1]), n)); r.add(packed(str(x[2]), n + 1)); return r; }
OP(bracketize_bulk) { const std::size_t n = in[4].n; J c; for (int k = 0; k < 3; ++k) c.add(in[k]); c.add(again(in[3], n)); const J x = op_bracketize(c); J r; r.add(after(str(in[0]), str(x[0]), n)); r.add(x[1]); r.add(x[2].size()); return r; }
OP(weave_bulk) { const std::size_t n = in[3].n; J c; c.add(in[0]); c.add(in[1]); c.add(again(in[2], n)); const J x = op_weave(c); J r; r.add(packed(str(x[0]), n)); r.add(x[1]); return r; }
OP(weave_far) { J c, l; c.add(in[0]); c.add(in[1]); for (long long k = 0; k < in[2].n; ++k) l.add(0); c.add(l); const J x = op_weave(c); J at; for (std::size_t k = 0; k < x[0].size(); ++k) if (x[0][k].n == in[1].n) at.add(k); J r; r.add(at); r.add(x[0].size()); r.add(x[1]); return r; }
OP(build_bulk) { const std::size_t n = in[1].n; J c; c.add(again(in[0], n)); J r; r.add(packed(str(op_build(c)[0]), n)); return r; }
OP(construct_bulk) { const std::size_t n = in[3].n; const std::string o = str(in[0]); J c, v, x; c.add(in[0]); c.add(in[1]); v.add(bytes(times(str(in[2]), n))); v.add(bytes("12345")); c.add(v); const std::string s = str(op_construct(c)[0]); if (s.compare(0, o.size(), o) != 0) x.add(J(-9)); else x.add(packed(s.substr(o.size()), in[2].size(), n)); return x; }
