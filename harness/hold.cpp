#include "agree.hpp"
#include "strtk.hpp"
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <stack>
using namespace vh;
namespace {
typedef std::string S; namespace u = strtk::util;
J txt(int v) { return dec((long long)v); }
J txt(const S& v) { return bytes(v); }
bool fits(const S& t, int& v) { return strtk::string_to_type_converter(t, v); }
bool fits(const S& t, S& v) { v = t; return true; }
void viac(Agree&, u::attribute<int>&, int) {}
void viac(Agree& g, u::attribute<S>& a, const S& v) { if (a.initialised() && v.find('\0') == S::npos) { g.put(v.c_str() == a); g.put(!(v.c_str() != a)); } }
template <typename T> J attr(const J& steps)
{
   typedef u::attribute<T> A; std::unique_ptr<A> a(new A); J r;
   for (std::size_t k = 0; k < steps.size(); ++k) {
      const S w = steps[k][0].s, t = str(steps[k][1]); T v = T(); const bool ok = fits(t, v); bool res = true;
      if (w == "set") { A& x = (*a = v); if (&x != a.get()) throw std::runtime_error("itself"); }
      else if (w == "parse") { Agree g; A c(*a), d(*a); g.put(strtk::string_to_type_converter(t, c)); g.put(strtk::parse(t + "|", "|", d) || t.empty()); res = strtk::string_to_type_converter(t, *a); if (!t.empty() && (d.value() != a->value() || d.initialised() != a->initialised())) throw std::runtime_error("parse"); }
      else if (w == "write") { if (k % 2) a->value() = v; else (*a)() = v; }
      else if (w == "back") a->previous() = v;
      else if (w == "forget") a->initialised() = false;
      else if (w == "make") a.reset(new A(v));
      else if (w == "copy") { std::unique_ptr<A> b(new A(*a)); A c; c = *b; a.reset(new A(c)); }
      const A& c = *a; J s; s.add(res); { Agree g; g.put(c.initialised()); g.put(a->initialised()); s.add(g.one()); }
      { Agree g; g.put(txt(c.value())); g.put(txt(c())); g.put(txt((*a)())); const T x = c; g.put(txt(x)); const T y = *a; g.put(txt(y)); std::ostringstream o; o << c; g.put(bytes(o.str())); s.add(g.one()); }
      s.add(txt(c.previous())); s.add(c.changed()); { Agree g; const bool eq = *a == v; g.put(eq); g.put(!(*a != v)); viac(g, *a, v); s.add(ok && eq); (void)g.one(); }
      S o = "?"; s.add(strtk::type_to_string(c, o) ? bytes(o) : bytes(S("N"))); r.add(s); }
   return r;
}
// objects that report their deletion
struct Obj { int id; static std::vector<int> gone; static int live; explicit Obj(int i) : id(i) { ++live; } ~Obj() { gone.push_back(id); --live; } };
std::vector<int> Obj::gone; int Obj::live = 0;
struct ById { bool operator()(const Obj* a, const Obj* b) const { return a->id < b->id; } };
struct Doomed { std::set<int> d; bool operator()(const Obj* o) const { return d.count(o->id) != 0; } bool operator()(const std::pair<const int, Obj*>& p) const { return d.count(p.second->id) != 0; } };
int id_of(const Obj* o) { return o->id; } int id_of(const std::pair<const int, Obj*>& p) { return p.first == p.second->id ? p.first : -1; }
J gone() { std::vector<int> g; g.swap(Obj::gone); std::sort(g.begin(), g.end()); return jints(g); }
template <typename C> J owned(C& c, const Doomed& d)
{
   J r, l; Obj::gone.clear(); const int before = Obj::live; (void)before; u::delete_if(d, c); for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) l.add(id_of(*i)); r.add(l); r.add(gone()); u::delete_all(c); if (!c.empty()) throw std::runtime_error("not empty"); r.add(gone()); r.add(Obj::live); return r;
}
template <typename C> void fill(C& c, const std::vector<int>& v) { for (std::size_t k = 0; k < v.size(); ++k) c.insert(c.end(), new Obj(v[k])); }
template <typename C> void fill_map(C& c, const std::vector<int>& v) { for (std::size_t k = 0; k < v.size(); ++k) c.insert(std::make_pair(v[k], new Obj(v[k]))); }
template <typename C, typename V> void push(C& c, const V& x)
{
   switch (x.size()) { case 1: u::push_back(c, x[0]); break; case 2: u::push_back(c, x[0], x[1]); break; case 3: u::push_back(c, x[0], x[1], x[2]); break; case 4: u::push_back(c, x[0], x[1], x[2], x[3]); break;
      case 5: u::push_back(c, x[0], x[1], x[2], x[3], x[4]); break; case 6: u::push_back(c, x[0], x[1], x[2], x[3], x[4], x[5]); break; case 7: u::push_back(c, x[0], x[1], x[2], x[3], x[4], x[5], x[6]); break;
      case 8: u::push_back(c, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]); break; case 9: u::push_back(c, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]); break; case 10: u::push_back(c, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9]); break; }
}
struct Hear { S* to; int* n; int ret; bool operator()(const unsigned char* b, const unsigned char* e) const { to->assign(b, e); ++*n; return ret != 0; } };
}
OP(attr) { J r; r.add(in[0].s == "i" ? attr<int>(in[1]) : attr<S>(in[1])); return r; }
OP(handles)
{
   int x0 = 1, x2 = 2; S x1 = "s"; unsigned short x3 = 3; std::unique_ptr<u::value> h[3]; for (int k = 0; k < 3; ++k) h[k].reset(new u::value); J r;
   for (std::size_t q = 0; q < in[0].size(); ++q) {
      const J& m = in[0][q]; const S w = m[0].s; const int a = (int)m[1].n - 1, b = (int)m[2].n - 1; const S t = str(m[3]); bool ok = true;
      if (w == "bind") { if (q % 2) { switch (b) { case 0: h[a]->assign(x0); break; case 1: h[a]->assign(x1); break; case 2: h[a]->assign(x2); break; default: h[a]->assign(x3); } }
                         else { switch (b) { case 0: h[a].reset(new u::value(x0)); break; case 1: h[a].reset(new u::value(x1)); break; case 2: h[a].reset(new u::value(x2)); break; default: h[a].reset(new u::value(x3)); } } }
      else if (w == "copy") { // through a non-const original, a const one, or a growing list, the originals gone afterwards
         if (q % 3 == 0) { std::unique_ptr<u::value> tmp(new u::value(*h[b])); h[a].reset(new u::value(*tmp)); }
         else if (q % 3 == 1) { const u::value& c = *h[b]; h[a].reset(new u::value(c)); }
         else { std::vector<u::value> l; for (int k = 0; k < 5; ++k) l.push_back(*h[b]); h[a].reset(new u::value(l[0])); } }
      else if (w == "assign") *h[a] = *h[b];
      else if (w == "clear") h[a].reset(new u::value);
      else if (w == "parse") { if (q % 3 == 0) ok = (*h[a])(t); else if (q % 3 == 1) { Buf z(t); ok = (*h[a])(z.cb(), z.ce()); } else { Buf z(t); ok = (*h[a])(std::make_pair(z.ub(), z.ue())); } }
      J s, f, v, o; s.add(ok); for (int k = 0; k < 3; ++k) { f.add(!!*h[k]); if ((*h[k] == *h[k]) != !!*h[k]) throw std::runtime_error("self"); S z = "?", z2 = "?"; const bool can = h[k]->to_string(z); if (strtk::type_to_string(*h[k], z2) != can || z2 != z) throw std::runtime_error("two ways to text"); o.add(can ? bytes(z) : bytes(S("N"))); }
      v.add(txt(x0)); v.add(txt(x1)); v.add(txt(x2)); v.add(txt((int)x3)); s.add(f); s.add(v); s.add(o); r.add(s); }
   J out; out.add(r); return out;
}
OP(scopes)
{
   int x = (int)in[0].n; S y = "v" + std::to_string(x); std::vector<std::unique_ptr<u::scoped_restore<int> > > st; std::vector<std::unique_ptr<u::scoped_restore<S> > > ss; J r;
   for (std::size_t q = 0; q < in[1].size(); ++q) {
      const S w = in[1][q][0].s; const int n = (int)in[1][q][1].n;
      if (w == "open") { if (n) { st.emplace_back(new u::scoped_restore<int>(x)); ss.emplace_back(new u::scoped_restore<S>(y, true)); } else { st.emplace_back(new u::scoped_restore<int>(x, false)); ss.emplace_back(new u::scoped_restore<S>(y, false)); } }
      else if (w == "write") { x = n; y = "v" + std::to_string(n); }
      else if (w == "switch") { if (!st.empty()) { st.back()->restore() = n; ss.back()->restore() = n; } }
      else if (!st.empty()) { st.pop_back(); ss.pop_back(); }
      if (y != "v" + std::to_string(x)) throw std::runtime_error("text"); r.add(x); }
   if (st.empty()) r.add(x);
   else { while (!st.empty()) { st.pop_back(); ss.pop_back(); if (y != "v" + std::to_string(x)) throw std::runtime_error("text"); r.add(x); } r.add(x); }
   J out; out.add(r); return out;
}
OP(owned)
{
   const S k = in[0].s; std::vector<int> v = ints(in[1]); const std::vector<int> dv = ints(in[2]); Doomed d; d.d.insert(dv.begin(), dv.end()); if (k == "set" || k == "map") { std::set<int> s(v.begin(), v.end()); v.assign(s.begin(), s.end()); }
   Obj::live = 0;
   if (k == "vector") { std::vector<Obj*> c; fill(c, v); return owned(c, d); } if (k == "deque") { std::deque<Obj*> c; fill(c, v); return owned(c, d); } if (k == "list") { std::list<Obj*> c; fill(c, v); return owned(c, d); }
   if (k == "set") { std::set<Obj*, ById> c; fill(c, v); return owned(c, d); } if (k == "multiset") { std::multiset<Obj*, ById> c; fill(c, v); return owned(c, d); }
   if (k == "map") { std::map<int, Obj*> c; fill_map(c, v); return owned(c, d); } std::multimap<int, Obj*> c; fill_map(c, v); return owned(c, d);
}
OP(keys)
{
   std::map<int, int> m; std::multimap<int, int> mm; const int key = (int)in[1].n; for (std::size_t k = 0; k < in[0].size(); ++k) { m.insert(std::make_pair((int)in[0][k][0].n, (int)in[0][k][1].n)); mm.insert(std::make_pair((int)in[0][k][0].n, (int)in[0][k][1].n)); }
   Agree g, h; { std::vector<int> c; u::make_key_list(m, c); g.put(jints(c)); } { std::deque<int> c; u::make_key_list(m, c); g.put(jints(c)); } { std::list<int> c; u::make_key_list(m, c); g.put(jints(c)); } { std::set<int> c; u::make_key_list(m, c); g.put(jints(c)); } { std::multiset<int> c; u::make_key_list(m, c); g.put(jints(c)); }
   { std::vector<int> c; u::make_value_list(mm, key, c); h.put(jints(c)); } { std::list<int> c; u::make_value_list(mm, key, std::back_inserter(c)); h.put(jints(c)); } { std::vector<int> c(1, -9); u::make_value_list(mm, key, c); if (c[0] != -9) throw std::runtime_error("kept"); c.erase(c.begin()); h.put(jints(c)); }
   J r; r.add(g.one()); r.add(h.one()); return r;
}
OP(push)
{
   const std::vector<int> o = ints(in[0]), x = ints(in[1]); Agree q, s, m; int left = 0;
   #define P(T, g) { T c(o.begin(), o.end()); push(c, x); g.put(jints(c)); u::clear(c); left += (int)c.size(); }
   P(std::vector<int>, q) P(std::deque<int>, q) P(std::list<int>, q) P(std::set<int>, s) P(std::multiset<int>, m)
   if (x.size() == 10) { std::vector<int> c(o); u::push_back(c, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[0]); std::vector<int> e(c.begin(), c.end() - 1); if (c.back() != x[0]) throw std::runtime_error("eleven"); q.put(jints(e)); }
   { std::queue<int> c; std::stack<int> t; std::priority_queue<int> p; for (std::size_t k = 0; k < x.size(); ++k) { c.push(x[k]); t.push(x[k]); p.push(x[k]); } u::clear(c); u::clear(t); u::clear(p); left += (int)(c.size() + t.size() + p.size()); std::multimap<int, int> mm; mm.insert(std::make_pair(1, 2)); u::clear(mm); left += (int)mm.size(); }
   J r; r.add(q.one()); r.add(s.one()); r.add(m.one()); r.add(left); return r;
}
OP(action)
{
   const S t = str(in[0]); S got = "?"; int n = 0; Hear f = { &got, &n, (int)in[1].n }; Agree g; Buf b(t); J j;
   #define C(call) { got = "?"; const int was = n; const bool ok = call; if (n != was + 1) throw std::runtime_error("calls"); J k; k.add(ok); k.add(bytes(got)); g.put(k); }
   u::semantic_action_impl a = u::semantic_action(f); if (!a) throw std::runtime_error("set"); C(a(t)) C(a(b.cb(), b.ce())) C(a(std::make_pair(b.ub(), b.ue())))
   std::unique_ptr<u::semantic_action_impl> p(new u::semantic_action_impl(a)), q(new u::semantic_action_impl(*p)); p.reset(); C((*q)(t)) { std::vector<u::semantic_action_impl> v; for (int k = 0; k < 4; ++k) v.push_back(*q); q.reset(); C(v[0](t)) C(v[3](b.cb(), b.ce())) }
   C(strtk::string_to_type_converter(t, a)) { S o = "?"; if (!strtk::type_to_string(a, o) || o != "semantic_action") throw std::runtime_error("name"); } int x = 0; if (t.find('|') == S::npos) { C((strtk::parse("1|" + t, "|", x, a) != 0)) C((strtk::parse("1|" + t, "|", x, u::semantic_action(f).ref()))) }
   u::semantic_action_impl none, copy(none); if (!!none || !!copy || none(t) || copy(t) || none == none || !(a == a) || n == 0) throw std::runtime_error("unset");
   j = g.one(); return j;
}
