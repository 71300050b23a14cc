#include "agree.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
#include <deque>
#include <list>
#include <set>
using namespace vh;
namespace {
typedef std::string S;
struct In { std::vector<int> d; explicit In(const std::vector<int>& v) : d(v) {} bool operator()(const int x) const { return std::find(d.begin(), d.end(), x) != d.end(); } };
// exact heap copies so that a step outside is seen
template <typename T> struct Heap { std::size_t n; T* d; explicit Heap(const std::vector<int>& v) : n(v.size()), d((T*)std::malloc(n * sizeof(T))) { for (std::size_t k = 0; k < n; ++k) d[k] = (T)v[k]; } ~Heap() { std::free(d); } const T* b() const { return d; } const T* e() const { return d + n; } };
template <typename A> void cidx(const A& a, J& j) { for (std::size_t k = 0; k < a.size(); ++k) j.add((int)(unsigned char)a[k]); }
template <typename It> J copies(It b, It e, const In& p, std::size_t n)
{
   J r; std::vector<int> a, c, w, u;
   strtk::copy_n(b, n, std::back_inserter(a)); r.add(jints(a));
   strtk::copy_if(p, b, e, std::back_inserter(c)); r.add(jints(c));
   It x = strtk::copy_while(p, b, e, std::back_inserter(w)); if ((std::size_t)std::distance(b, x) != w.size()) throw std::runtime_error("position"); r.add(jints(w));
   It y = strtk::copy_until(p, b, e, std::back_inserter(u)); if ((std::size_t)std::distance(b, y) != u.size()) throw std::runtime_error("position"); r.add(jints(u));
   { It z = b; strtk::skip_while_matching(z, e, p); if (z != x) throw std::runtime_error("skipped"); }
   r.add(strtk::range_only_contains(p, b, e)); return r;
}
template <typename C> J figures(const C& c, bool turns = true)
{
   typedef typename C::value_type T; J r; { std::vector<T> u; strtk::extract_unique(c.begin(), c.end(), std::back_inserter(u)); r.add(jints(u)); } r.add((long long)strtk::count_consecutive_duplicates(c.begin(), c.end()));
   J x; if (!c.empty()) { Agree g; J j; j.add((long long)strtk::min_of_cont(c)); j.add((long long)strtk::max_of_cont(c)); g.put(j); T a = T(101), b = T(37); strtk::min_max_of_cont(c, a, b); J k; k.add((long long)a); k.add((long long)b); g.put(k); a = T(101); b = T(37); strtk::min_max_of_range(c.begin(), c.end(), a, b); J l; l.add((long long)a); l.add((long long)b); g.put(l);
      const std::set<T> s(c.begin(), c.end()); const std::multiset<T> m(c.begin(), c.end()); J n, o, p, q; n.add((long long)strtk::min_of_cont(s)); n.add((long long)strtk::max_of_cont(s)); g.put(n); o.add((long long)strtk::min_of_cont(m)); o.add((long long)strtk::max_of_cont(m)); g.put(o);
      a = T(101); b = T(37); strtk::min_max_of_cont(s, a, b); p.add((long long)a); p.add((long long)b); g.put(p); a = T(101); b = T(37); strtk::min_max_of_cont(m, a, b); q.add((long long)a); q.add((long long)b); g.put(q); x = g.one(); }
   r.add(x);
   if (!turns) return r;
   Agree z; { C k(c); strtk::lexicographically_canonicalize(k); z.put(jints(k)); } { C k(c); strtk::lexicographically_canonicalize(k.begin(), k.end()); z.put(jints(k)); } r.add(z.one()); return r;
}
}
OP(copies)
{
   const std::vector<int> v = ints(in[0]); const In p(ints(in[1])); const std::size_t n = (std::size_t)in[2].n; Agree g; Heap<int> h(v); Heap<unsigned char> c(v); const std::deque<int> d(v.begin(), v.end()); const std::list<int> l(v.begin(), v.end());
   g.put(copies(h.b(), h.e(), p, n)); g.put(copies(d.begin(), d.end(), p, n)); g.put(copies(l.begin(), l.end(), p, n)); g.put(copies(c.b(), c.e(), p, n)); return g.one();
}
OP(figures)
{
   const std::vector<int> v = ints(in[0]); Agree g; g.put(figures(v)); g.put(figures(std::deque<int>(v.begin(), v.end()))); g.put(figures(std::list<long long>(v.begin(), v.end())));
   bool byte = true, low = true; for (std::size_t k = 0; k < v.size(); ++k) { byte = byte && v[k] >= 0 && v[k] < 256; low = low && v[k] >= 0 && v[k] < 128; }
   if (byte) g.put(figures(std::vector<unsigned char>(v.begin(), v.end())));
   if (low) { S s; for (std::size_t k = 0; k < v.size(); ++k) s += (char)v[k]; strtk::lexicographically_canonicalize(s); J r = g.one(); J m; m.add(r[0]); m.add(r[1]); m.add(r[2]); m.add(bytes(s)); g.put(m); }
   return g.one();
}
OP(once)
{
   const S s = str(in[0]); Buf b(s); Agree g; const std::size_t k = strtk::first_non_repeated_char(s); g.put(k == S::npos ? J(-1) : J(k));
   { const char* x = strtk::first_non_repeated_char(b.cb(), b.ce()); g.put(x == b.ce() ? J(-1) : J((long long)(x - b.cb()))); } { const unsigned char* x = strtk::first_non_repeated_char(b.ub(), b.ue()); g.put(x == b.ue() ? J(-1) : J((long long)(x - b.ub()))); }
   J r; r.add(g.one()); return r;
}
OP(iota)
{
   const int v = (int)in[0].n; const std::size_t n = (std::size_t)in[1].n; Agree g;
   { std::vector<int> x(n, -7); strtk::iota(x.begin(), x.end(), v); g.put(jints(x)); } { std::list<int> x(n, -7); strtk::iota(x, v); g.put(jints(x)); } { std::deque<int> x; strtk::iota(x, n, v); g.put(jints(x)); } { std::vector<int> x; strtk::iota(n, v, std::back_inserter(x)); g.put(jints(x)); }
   { std::set<int> x; strtk::iota(x, n, v); g.put(jints(x)); } { std::multiset<int> x; strtk::iota(x, n, v); g.put(jints(x)); } { std::vector<int> x(n, -7); strtk::range::adapter<int> a(x.data(), x.data() + n); strtk::iota(a, v); g.put(jints(x)); }
   { std::vector<int> x(1, 99); strtk::iota(x, n, v); if (x[0] != 99) throw std::runtime_error("kept"); x.erase(x.begin()); g.put(jints(x)); }
   J r; r.add(g.one()); return r;
}
OP(view)
{
   const S s = str(in[0]); Buf b(s); Agree t, n; typedef strtk::range::adapter<const char> C; typedef strtk::range::adapter<const unsigned char> U;
   #define V(a) { t.put(bytes((a).begin(), (a).end())); n.put((a).size()); const S x = (a); t.put(bytes(x)); J j; for (std::size_t k = 0; k < (a).size(); ++k) j.add((int)(unsigned char)(a)[k]); t.put(j); J j2; cidx(a, j2); t.put(j2); }
   C c1(b.cb(), b.ce()); V(c1) C c2(b.cb(), b.n); V(c2) C c3(std::make_pair(b.cb(), b.ce())); V(c3) C c4 = strtk::range::type(s); V(c4) C c5 = strtk::range::type(b.cb(), b.ce()); V(c5)
   U u1(b.ub(), b.ue()); V(u1) U u2 = strtk::range::type(b.ub(), b.ue()); V(u2) strtk::range::adapter<char> m(b.b(), b.e()); V(m) strtk::range::adapter<unsigned char> w(b.mub(), b.n); V(w)
   t.put(bytes(strtk::range::as_string(c1))); t.put(bytes(strtk::range::as_string(u1)));
   if (s.size() == 3) { const char a[3] = { s[0], s[1], s[2] }; C c6 = strtk::range::type(a); V(c6) }
   J r; r.add(t.one()); r.add(n.one()); return r;
}
OP(members)
{
   const std::vector<int> v = ints(in[0]), d = ints(in[1]); Agree g; typedef strtk::multiple_delimiter_predicate<int> P; Heap<int> h(d);
   { P p(h.b(), h.e()); J j; for (std::size_t k = 0; k < v.size(); ++k) j.add(p(v[k])); g.put(j); } { P p(h.b(), d.size()); J j; for (std::size_t k = 0; k < v.size(); ++k) j.add(p(v[k])); g.put(j); }
   { std::list<int> l(d.begin(), d.end()); P p(l.begin(), l.end()); J j; for (std::size_t k = 0; k < v.size(); ++k) j.add(p(v[k])); g.put(j); } { P p(strtk::range::adapter<int>(h.d, h.n)); J j; for (std::size_t k = 0; k < v.size(); ++k) j.add(p(v[k])); g.put(j); }
   if (d.size() == 1) { strtk::single_delimiter_predicate<int> p(d[0]); J j; for (std::size_t k = 0; k < v.size(); ++k) j.add(p(v[k])); g.put(j); }
   bool byte = true; for (std::size_t k = 0; k < v.size(); ++k) byte = byte && v[k] >= 0 && v[k] < 256; for (std::size_t k = 0; k < d.size(); ++k) byte = byte && d[k] >= 0 && d[k] < 256;
   if (byte) { S s; for (std::size_t k = 0; k < d.size(); ++k) s += (char)d[k]; Buf b(s); strtk::multiple_char_delimiter_predicate p(s), q(b.cb(), b.ce()), u(b.ub(), b.ue()), copy(p); J j, k2, k3, k4, k5; for (std::size_t k = 0; k < v.size(); ++k) { j.add(p((char)v[k])); k2.add(q((unsigned char)v[k])); k3.add(u((char)v[k])); k4.add(copy((unsigned char)v[k])); } g.put(j); g.put(k2); g.put(k3); g.put(k4);
      if (s.find('\0') == S::npos) { strtk::multiple_char_delimiter_predicate z(s.c_str()); for (std::size_t k = 0; k < v.size(); ++k) k5.add(z((char)v[k])); g.put(k5); } }
   J r; r.add(g.one()); return r;
}
namespace { std::vector<int> again(const std::vector<int>& u, std::size_t n) { std::vector<int> v; v.reserve(u.size() * n); while (n--) v.insert(v.end(), u.begin(), u.end()); return v; }
J all(const std::vector<int>& v) { return jints(v); } }
OP(figures_bulk) { const std::vector<int> v = again(ints(in[0]), in[1].n); Agree g; g.put(figures(v, false)); g.put(figures(std::deque<int>(v.begin(), v.end()), false)); g.put(figures(std::list<long long>(v.begin(), v.end()), false)); g.put(figures(std::vector<unsigned char>(v.begin(), v.end()), false)); return g.one(); }
OP(copies_bulk)
{
   const std::size_t n = in[1].n; const std::vector<int> u = ints(in[0]), t = ints(in[2]); std::vector<int> v = again(u, n); v.insert(v.end(), t.begin(), t.end()); J c; c.add(all(v)); c.add(in[3]); c.add(v.size() - 1); const J x = op_copies(c); const In p(ints(in[3])); std::size_t q = 0; for (std::size_t k = 0; k < u.size(); ++k) q += p(u[k]);
   J r; r.add(packed(str(x[0]), u.size(), n)); r.add(packed(str(x[1]), q, n)); for (std::size_t k = 2; k < 4; ++k) { const S s = str(x[k]); r.add(packed(s, s.size() < u.size() * n ? 0 : u.size(), n)); } r.add(x[4]); return r;
}
OP(once_bulk) { J c; c.add(bytes(times(str(in[0]), in[1].n) + str(in[2]))); return op_once(c); }
