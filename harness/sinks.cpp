#include "agree.hpp"
#include "contview.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
using namespace vh;
// ---- output adaptors: fields given one by one
namespace {
typedef std::vector<std::string> V;
template <typename A> void feed(A a, const V& f, const int how)
{
   for (std::size_t k = 0; k < f.size(); ++k) { Buf b(f[k]);
      switch (how) { case 0: a = std::make_pair(b.cb(), b.ce()); ++a; break; case 1: *a = std::make_pair(b.b(), b.e()); ++a; break; case 2: *a++ = std::make_pair(b.ub(), b.ue()); break; case 3: a(std::make_pair(b.cb(), b.ce())); break; case 4: { A c(a); c = a; c = std::make_pair(f[k].begin(), f[k].end()); a = c; } break; }
   }
}
template <typename A> void feeds(A a, const V& f, const int how) { for (std::size_t k = 0; k < f.size(); ++k) { if (how == 0) { a = f[k]; ++a; } else *a++ = f[k]; } }
template <typename C> void back(Agree& g, const V& f) { for (int h = 0; h < 5; ++h) { C c; old(c); feed(strtk::range_to_type_back_inserter(c), f, h); g.put(view(c)); } for (int h = 0; h < 2; ++h) { C c; old(c); feeds(strtk::range_to_type_back_inserter(c), f, h); g.put(view(c)); } }
template <typename C> void ins(Agree& g, const V& f) { for (int h = 0; h < 5; ++h) { C c; old(c); feed(strtk::range_to_type_inserter(c), f, h); g.put(view(c)); } }
template <typename C> void push(Agree& g, const V& f) { for (int h = 0; h < 5; ++h) { C c; old(c); feed(strtk::range_to_type_push_inserter(c), f, h); g.put(view(c)); } }
// through a pointer into a block exactly large enough
template <typename T> struct Block { std::size_t n; T* d; explicit Block(std::size_t k) : n(k), d((T*)::operator new(k * sizeof(T) + 0)) { for (std::size_t i = 0; i < k; ++i) new (d + i) T(); } ~Block() { for (std::size_t i = 0; i < n; ++i) d[i].~T(); ::operator delete(d); } };
template <typename T> bool conv(const std::string& s) { T t = T(); return strtk::string_to_type_converter(s, t); }
template <typename T, typename C> void ptr(Agree& g, const V& f)
{
   std::size_t n = 0; for (std::size_t k = 0; k < f.size(); ++k) n += conv<T>(f[k]);
   for (int h = 0; h < 9; ++h) { Block<T> b(n); std::size_t c = 3; if (h < 4) feed(strtk::range_to_ptr_type(b.d, c), f, h); else if (h == 8) feed(strtk::range_to_ptr_type(b.d, c), f, 4); else if (h < 6) feeds(strtk::range_to_ptr_type(b.d, c), f, h - 4); else if (h == 6) { c = 3 + n; feed(strtk::range_to_ptr_type(b.d), f, 0); }
      else { c = 3 + n; feeds(strtk::range_to_ptr_type(b.d), f, 1); }
      C v; old(v); for (std::size_t k = 0; k < n; ++k) v.push_back(b.d[k]); J j; j.add(view(v)); if (c != 3 + n) { J x; x.add(c); g.put(x); } else g.put(view(v)); }
}
// begin/end form: only for fields that convert
template <typename A> void both(A a, const V& f) { for (std::size_t k = 0; k < f.size(); ++k) { Buf b(f[k]); a(b.cb(), b.ce()); } }
template <typename T> void strict(Agree& g, const V& f)
{
   for (std::size_t k = 0; k < f.size(); ++k) if (!conv<T>(f[k])) return;
   { std::vector<T> c; old(c); both(strtk::range_to_type_back_inserter(c), f); g.put(view(c)); }
   { Block<T> b(f.size()); std::size_t n = 0; strtk::range_to_ptr_type_iterator<T> a = strtk::range_to_ptr_type(b.d, n); for (std::size_t k = 0; k < f.size(); ++k) { Buf x(f[k]); a(x.cb(), x.ce()); } std::vector<T> c; old(c); c.insert(c.end(), b.d, b.d + n); g.put(view(c)); }
}
template <typename T> J merged(Agree& s, Agree& u, Agree& m) { J r; r.add(s.one()); r.add(u.one()); r.add(m.one()); return r; }
template <typename T> J deliver(const V& f)
{
   Agree s, u, m; back<std::vector<T> >(s, f); back<std::deque<T> >(s, f); back<std::list<T> >(s, f); push<std::queue<T> >(s, f); push<std::stack<T> >(s, f); ptr<T, std::vector<T> >(s, f); strict<T>(s, f);
   ins<std::set<T> >(u, f); ins<std::multiset<T> >(m, f); push<std::priority_queue<T> >(m, f);
   return merged<T>(s, u, m);
}
struct Seen { TV* v; explicit Seen(TV& x) : v(&x) {} template <typename T> void operator()(const T& t) const { v->push_back(Txt<T>::s(t)); } };
template <typename T> J values(const std::vector<T>& x)
{
   Agree s, u, m, n;
   #define EACH(A) for (int h = 0; h < 4; ++h) { C c; old(c); feedv(A(c), x, h); g->put(view(c)); }
   { std::size_t c = 2; std::copy(x.begin(), x.end(), strtk::counting_back_inserter<T>(c)); n.put(J(c - 2)); } { std::size_t c = 0; strtk::counting_back_inserter_iterator<T> a(c); for (std::size_t k = 0; k < x.size(); ++k) { if (k % 3 == 0) a(x[k]); else if (k % 3 == 1) *a++ = x[k]; else { strtk::counting_back_inserter_iterator<T> b(a); b = a; *b = x[k]; ++b; a = b; } } n.put(J(c)); }
   { TV v; std::copy(x.begin(), x.end(), strtk::functional_inserter(Seen(v))); std::vector<T> o; old(o); TV w = flat(o); w.insert(w.end(), v.begin(), v.end()); s.put(jstrs(w)); n.put(J(v.size())); } { TV v; strtk::functional_inserter_iterator<Seen> a((Seen(v))); for (std::size_t k = 0; k < x.size(); ++k) { if (k % 2) a(x[k]); else { strtk::functional_inserter_iterator<Seen> b(a); b = a; *b++ = x[k]; a = b; } } std::vector<T> o; old(o); TV w = flat(o); w.insert(w.end(), v.begin(), v.end()); s.put(jstrs(w)); }
   #define BACK(C) { C c; old(c); std::copy(x.begin(), x.end(), strtk::back_inserter_with_valuetype(c)); s.put(view(c)); } { C c; old(c); strtk::back_inserter_with_valuetype_iterator<C > a(c); for (std::size_t k = 0; k < x.size(); ++k) { if (k % 3 == 0) a(x[k]); else if (k % 3 == 1) *a++ = x[k]; else { strtk::back_inserter_with_valuetype_iterator<C > b(a); b = a; *b = x[k]; a = b; } } s.put(view(c)); }
   BACK(std::vector<T>) BACK(std::deque<T>) BACK(std::list<T>)
   #define INS(C, G) { C c; old(c); std::copy(x.begin(), x.end(), strtk::inserter_with_valuetype(c)); G.put(view(c)); } { C c; old(c); strtk::inserter_with_valuetype_iterator<C > a(c); for (std::size_t k = 0; k < x.size(); ++k) { if (k % 3 == 0) a(x[k]); else if (k % 3 == 1) *a++ = x[k]; else { strtk::inserter_with_valuetype_iterator<C > b(a); b = a; *b = x[k]; a = b; } } G.put(view(c)); }
   INS(std::set<T>, u) INS(std::multiset<T>, m)
   #define PUSH(C, G) { C c; old(c); std::copy(x.begin(), x.end(), strtk::push_inserter(c)); G.put(view(c)); } { C c; old(c); strtk::push_inserter_iterator<C > a = strtk::push_inserter(c); for (std::size_t k = 0; k < x.size(); ++k) { if (k % 2) *a++ = x[k]; else { strtk::push_inserter_iterator<C > b(a); b = a; b = x[k]; a = b; } } G.put(view(c)); }
   PUSH(std::queue<T>, s) PUSH(std::stack<T>, s) PUSH(std::priority_queue<T>, m)
   J r; r.add(n.one()); r.add(s.one()); r.add(u.one()); r.add(m.one()); return r;
}
}
OP(deliver) { const V f = strs(in[0]); return in[1].s == "i" ? deliver<int>(f) : deliver<std::string>(f); }
OP(values) { const V f = strs(in[0]); if (in[1].s == "s") return values<std::string>(f); std::vector<int> x; for (std::size_t k = 0; k < f.size(); ++k) x.push_back(std::atoi(f[k].c_str())); return values<int>(x); }
// ---- container sinks as variables of a parse
namespace {
template <typename C> void prep(Agree& g, const std::string& t, const std::string& d, const std::size_t opt, const long n)
{
   typedef strtk::sink_type<C> S; const std::string outer = "|";
   for (int how = 0; how < 8; ++how) {
      C a, b; old(a); old(b); std::string mid = "K"; bool ok;
      switch (how) {
         case 0: { S s(d, opt); S z(d, opt); if (n >= 0) { s.count(n); z.count(n); } ok = strtk::parse(t, outer, s(a, "", opt), mid, z(b, d, opt)); break; }
         case 1: { S s(a, d, opt); S z(b, d, opt); if (n >= 0) { s.count(n); z.count(n); } ok = strtk::parse(t, outer, s, mid, z); break; }
         case 2: { S s("?;"); S z("!"); Buf x(t); if (n >= 0) ok = strtk::parse(x.cb(), x.ce(), outer, s(a, d, opt).count(n), mid, z(b, d, opt).count(n)); else ok = strtk::parse(x.cb(), x.ce(), outer, s(a, d, opt), mid, z(b, d, opt).reference()); break; }
         case 3: { S s(d, opt); s.count(1); if (n >= 0) s.count(n); else s.count(); S z(s); C junk; z(junk); s(a, d, opt); ok = strtk::parse(t, outer, s, mid, z(b, d, opt)); break; }
         case 4: { V f; const std::size_t k = strtk::parse(t, outer, f); S s(a, d, opt), z(b, d, opt); if (n >= 0) { s.count(n); z.count(n); } std::string m2; ok = k >= 3;
                   if (ok) { Buf x(f[0]); ok = s.parse(x.cb(), x.ce()); if (ok) { mid = f[1]; ok = strtk::string_to_type_converter(f[2], z); } } break; }
         case 5: { S s(a, d, opt), z(b, d, opt); if (n >= 0) { s.count(n); z.count(n); } std::ofstream("sk.txt", std::ios::binary) << t; if (t.find('\n') != std::string::npos || t.empty()) continue; std::ifstream is("sk.txt", std::ios::binary); ok = strtk::parse_line(is, outer, s, mid, z); break; }
         case 6: { S s(a, d, opt), z(b, d, opt); if (n >= 0) { s.count(n); z.count(n); } Buf x(t); ok = strtk::parse(x.ub(), x.ue(), outer, s, mid, z); break; }
         default: { if (n >= 0) continue; if (opt != 1) continue; S s(d), z(d); ok = strtk::parse(t, outer, s(a), mid, z(b)); }
      }
      J j; j.add(ok); j.add(view(a)); j.add(bytes(mid)); j.add(view(b)); g.put(j);
   }
}
template <typename T> J sinks(const std::string& t, const std::string& d, const std::size_t opt, const long n)
{
   Agree s, u, m; prep<std::vector<T> >(s, t, d, opt, n); prep<std::deque<T> >(s, t, d, opt, n); prep<std::list<T> >(s, t, d, opt, n); prep<std::queue<T> >(s, t, d, opt, n); prep<std::stack<T> >(s, t, d, opt, n);
   prep<std::set<T> >(u, t, d, opt, n); prep<std::multiset<T> >(m, t, d, opt, n); prep<std::priority_queue<T> >(m, t, d, opt, n);
   return merged<T>(s, u, m);
}
}
OP(sinks) { const std::string t = str(in[0]), d = str(in[1]); return in[4].s == "i" ? sinks<int>(t, d, in[2].n, in[3].n) : sinks<std::string>(t, d, in[2].n, in[3].n); }
OP(unbound) { const std::string t = str(in[0]); J r; Agree g; { strtk::vector_sink<int>::type s(","); g.put(J(s.parse(t.begin(), t.end()))); } { strtk::set_sink<std::string>::type s(","); g.put(J(s.parse(t.begin(), t.end()))); } { strtk::queue_sink<int>::type s(","); g.put(J(strtk::string_to_type_converter(t, s))); } r.add(g.one()); return r; }
OP(bulk)
{
   const std::vector<std::string> u = strs(in[0]); V f; for (std::size_t k = (std::size_t)in[1].n; k; --k) f.insert(f.end(), u.begin(), u.end()); const std::size_t n = in[1].n; Agree g;
   { std::size_t c = 0; std::copy(f.begin(), f.end(), strtk::counting_back_inserter<std::string>(c)); std::size_t d = 0; strtk::counting_back_inserter_iterator<std::string> a(d); for (std::size_t k = 0; k < f.size(); ++k) a(f[k]); if (c != d) throw std::runtime_error("counts differ"); g.put(J(c)); }
   J j; j.add(g.one()); Agree h;
   { std::vector<int> c; feeds(strtk::range_to_type_back_inserter(c), f, 1); std::string s; for (std::size_t k = 0; k < c.size(); ++k) s += std::to_string(c[k]) + ","; J x; x.add(c.size()); x.add(packed(s, n)); h.put(x); }
   { Block<int> b(f.size()); std::size_t c = 0; feeds(strtk::range_to_ptr_type(b.d, c), f, 0); std::string s; for (std::size_t k = 0; k < c && k < b.n; ++k) s += std::to_string(b.d[k]) + ","; J x; x.add(c); x.add(packed(s, n)); h.put(x); }
   { std::deque<int> c; feed(strtk::range_to_type_back_inserter(c), f, 2); std::string s; for (std::size_t k = 0; k < c.size(); ++k) s += std::to_string(c[k]) + ","; J x; x.add(c.size()); x.add(packed(s, n)); h.put(x); }
   j.add(h.one()); return j;
}
