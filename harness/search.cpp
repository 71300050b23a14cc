#include "agree.hpp"
#include "bulk.hpp"
#include <deque>
#include <list>
#include <set>
#include "strtk.hpp"
using namespace vh;
OP(match)
{
   const std::string p = str(in[0]), s = str(in[1]); Buf bp(p), bs(s); Agree g;
   g.put(strtk::match(p, s));
   g.put(strtk::match(bp.cb(), bp.ce(), bs.cb(), bs.ce(), '*', '?'));
   g.put(strtk::match(p.begin(), p.end(), s.begin(), s.end(), '*', '?'));
   return g.get();
}
OP(match_w)
{
   const std::vector<int> p = ints(in[0]), s = ints(in[1]); const int a = in[2].n, b = in[3].n; Agree g;
   g.put(strtk::match(p.begin(), p.end(), s.begin(), s.end(), a, b));
   std::deque<int> dp(p.begin(), p.end()), ds(s.begin(), s.end()); std::list<int> lp(p.begin(), p.end()), ls(s.begin(), s.end());
   g.put(strtk::match(dp.begin(), dp.end(), ds.begin(), ds.end(), a, b)); g.put(strtk::match(lp.begin(), lp.end(), ls.begin(), ls.end(), a, b));
   return g.get();
}
namespace {
typedef std::pair<const char*, const char*> cp;
template <typename V, typename It> J offs(const V& v, It b, std::size_t n, std::size_t len)
{ J j; if (n != v.size()) return J(-7); for (typename V::const_iterator i = v.begin(); i != v.end(); ++i) { if ((std::size_t)(i->second - i->first) != len) return J(-8); j.add((long long)(i->first - b)); } return j; }
J np(std::size_t n) { return n == std::string::npos ? J(-1) : J(n); }
}
OP(find)
{
   const std::string p = str(in[0]), s = str(in[1]); Buf bp(p), bs(s); J j; typedef std::pair<std::string::const_iterator, std::string::const_iterator> sp;
   Agree f, fi, b, bi, e, ei;
   { std::vector<cp> v; std::size_t n = strtk::find_all(p, s, v); f.put(offs(v, s.data(), n, p.size())); }
   { std::deque<cp> v; std::size_t n = strtk::find_all(p, s, std::back_inserter(v)); f.put(offs(v, s.data(), n, p.size())); }
   { std::list<cp> v; std::size_t n = strtk::find_all(bp.cb(), bp.ce(), bs.cb(), bs.ce(), v); f.put(offs(v, bs.cb(), n, p.size())); }
   { std::vector<sp> v; std::size_t n = strtk::find_all(p.begin(), p.end(), s.begin(), s.end(), std::back_inserter(v)); f.put(offs(v, s.begin(), n, p.size())); }
   { std::vector<cp> v; std::size_t n = strtk::ifind_all(p, s, v); fi.put(offs(v, s.data(), n, p.size())); }
   { std::deque<cp> v; std::size_t n = strtk::ifind_all(p, s, std::back_inserter(v)); fi.put(offs(v, s.data(), n, p.size())); }
   { std::vector<cp> v; std::size_t n = strtk::ifind_all(bp.cb(), bp.ce(), bs.cb(), bs.ce(), std::back_inserter(v)); fi.put(offs(v, bs.cb(), n, p.size())); }
   b.put(strtk::begins_with(p, s)); b.put(strtk::begins_with(bp.cb(), bp.ce(), bs.cb(), bs.ce())); b.put(strtk::begins_with(p.begin(), p.end(), s.begin(), s.end()));
   bi.put(strtk::ibegins_with(p, s)); bi.put(strtk::ibegins_with(bp.cb(), bp.ce(), bs.cb(), bs.ce()));
   e.put(strtk::ends_with(p, s)); e.put(strtk::ends_with(bp.cb(), bp.ce(), bs.cb(), bs.ce())); e.put(strtk::ends_with(p.begin(), p.end(), s.begin(), s.end()));
   ei.put(strtk::iends_with(p, s)); ei.put(strtk::iends_with(bp.cb(), bp.ce(), bs.cb(), bs.ce()));
   J r; Agree* all[] = { &f, &fi, &b, &bi, &e, &ei };
   for (int k = 0; k < 6; ++k) { J v = all[k]->get(); r.add(v.size() == 1 ? v[0] : J::S("disagree")); }
   r.add(np(strtk::index_of(p, s))); r.add(p.empty() ? J(-1) : np(strtk::ifind(p, s)));
   j.add(r); return j;
}
OP(imatch)
{
   const std::string a = str(in[0]), b = str(in[1]); Buf x(a), y(b); Agree g;
   g.put(strtk::imatch(a, b)); g.put(strtk::imatch(b, a)); g.put(strtk::imatch(x.cb(), x.ce(), y.cb(), y.ce())); g.put(strtk::imatch(a.begin(), a.end(), b.begin(), b.end()));
   g.put(strtk::imatch(strtk::range::adapter<char>(x.b(), x.e()), strtk::range::adapter<char>(y.b(), y.e())));
   if (a.size() == 1 && b.size() == 1) g.put(strtk::imatch_char(a[0], b[0]));
   return g.get();
}
OP(imatch_in)
{
   const std::string s = str(in[0]); std::vector<std::string> v = strs(in[1]); Agree g;
   std::vector<std::string>::iterator i = strtk::imatch(s, v.begin(), v.end()); const int k = i == v.end() ? -1 : (int)(i - v.begin()); g.put(J(k));
   std::deque<std::string> d(v.begin(), v.end()); std::list<std::string> l(v.begin(), v.end()); std::set<std::string> t(v.begin(), v.end()); std::multiset<std::string> m(v.begin(), v.end());
   bool r[] = { strtk::imatch(s, v), strtk::imatch(s, d), strtk::imatch(s, l), strtk::imatch(s, t), strtk::imatch(s, m) };
   for (int q = 0; q < 5; ++q) if (r[q] != (k >= 0)) g.put(J(-100 - q));
   return g.get();
}
OP(sort)
{
   std::string s = str(in[0]); std::vector<int> v; strtk::sort(s); Agree g;
   // plain char order: compare as an order on the char type
   for (std::size_t k = 1; k < s.size(); ++k) if (s[k] < s[k - 1]) g.put(J(-1));
   std::vector<unsigned char> u(s.begin(), s.end()); std::sort(u.begin(), u.end()); g.put(bytes(u.begin(), u.end()));
   return g.get();
}
OP(condition)
{
   const std::string p = str(in[0]), s = str(in[1]); typedef strtk::string_condition C; J r, x; Buf b(s);
   const C::condition_type ty[] = { C::equal, C::notequal, C::like, C::begins_with, C::ends_with, C::within, C::notwithin };
   for (int k = 0; k < 7; ++k) {
      Agree g; C c(ty[k], p); g.put(c(s)); g.put(c(b.ub(), b.ue()));
      // a copy outlives what it was copied from; an assigned condition stands for the new one
      C* first = new C(ty[k], p); C copy(*first); C other(ty[(k + 3) % 7], "x" + s); other = *first; std::vector<C> list(3, *first); delete first;
      g.put(copy(s)); g.put(other(b.ub(), b.ue())); g.put(list[2](s)); other = other; g.put(other(s)); x.add(g.one()); }
   r.add(x); return r;
}
OP(find_bulk)
{
   const std::string p = str(in[0]), u = str(in[1]); const std::size_t n = in[2].n; const std::string s = times(u, n) + str(in[3]); J x; x.add(bytes(p)); x.add(bytes(s)); J r = op_find(x); if (r.size() != 1) return J(-1); J j, f = r[0];
   for (int k = 0; k < 2; ++k) { // the places of the occurrences within the copies, and those after the copies
      std::string w; J rest; bool in_order = true; long long last = -1;
      for (std::size_t q = 0; q < f[k].size(); ++q) { const long long o = f[k][q].n; in_order = in_order && o > last; last = o; if (o < (long long)(n * u.size())) w += char(o % u.size()); else rest.add(o - n * u.size()); }
      J y; y.add(in_order); y.add(w.empty() ? J() : packed(w, n)); y.add(rest); j.add(y); }
   for (int k = 2; k < 6; ++k) j.add(f[k]); for (int k = 6; k < 8; ++k) j.add(f[k]);
   return j;
}
OP(match_bulk)
{
   const std::string p = str(in[0]), u = str(in[1]), t = str(in[3]); const std::size_t n = in[2].n; J x; x.add(bytes(p)); x.add(bytes(times(u, n) + t)); J r = op_match(x), q; r.add(J()); r.a.pop_back(); if (r.size() != 1) return J(-1);
   // equality up to case of the long text and of one that differs in one place only
   std::string a = times(u, n) + t, b(a); for (std::size_t k = 0; k < b.size(); k += 1 + k % 7) if (std::isalpha((unsigned char)b[k])) b[k] ^= 32; J y; y.add(bytes(a)); y.add(bytes(b)); J e = op_imatch(y); b[b.size() - 1] ^= 1; J z; z.add(bytes(a)); z.add(bytes(b)); J d = op_imatch(z);
   if (e.size() != 1 || d.size() != 1) return J(-2); q.add(r[0]); q.add(e[0]); q.add(d[0]); return q;
}
