#ifndef SPLIT_OBS
#define SPLIT_OBS
#ifndef strtk_enable_regex
#define strtk_enable_regex
#endif
#include "agree.hpp"
#include "bulk.hpp"
#include <deque>
#include <list>
#include <set>
using namespace vh;
typedef std::pair<const char*, const char*> R;
typedef std::pair<std::string::const_iterator, std::string::const_iterator> SR;

struct Obs {
   Agree off, txt, cnt; const std::string& s; const char* base;
   Obs(const std::string& t, const char* b) : s(t), base(b) {}
   template <typename C> void ranges(const C& v, const char* b = 0) { if (!b) b = base; J o, t; for (typename C::const_iterator i = v.begin(); i != v.end(); ++i) { J p; p.add((long)(i->first - b)); p.add((long)(i->second - b)); o.add(p); t.add(bytes(i->first, i->second)); } off.put(o); txt.put(t); }
   template <typename C> void sranges(const C& v) { J o, t; for (typename C::const_iterator i = v.begin(); i != v.end(); ++i) { J p; p.add((long)(i->first - s.begin())); p.add((long)(i->second - s.begin())); o.add(p); t.add(bytes(i->first, i->second)); } off.put(o); txt.put(t); }
   template <typename C> void texts(const C& v) { txt.put(jstrs(v)); }
   void count(std::size_t n) { cnt.put(J(n)); }
   J get() { J r; r.add(off.get()); r.add(txt.get()); r.add(cnt.get()); return r; }
};
// ranges and texts that repeat every w bytes, n times: those of the first w bytes, and n
inline J periodic(const J& x, std::size_t w, std::size_t n)
{
   if (x[0].size() != 1 || x[1].size() != 1 || x[2].size() != 1) return J::S("entry points disagree");
   const J& o = x[0][0]; const J& t = x[1][0]; const std::size_t k = o.size() / n; J r, a, b; bool same = o.size() == k * n && t.size() == k * n && (std::size_t)x[2][0].n == k * n;
   for (std::size_t q = 0; q < o.size() && same; ++q) same = o[q].size() == 2 && o[q][0].n == o[q % k][0].n + (long long)(w * (q / k)) && o[q][1].n == o[q % k][1].n + (long long)(w * (q / k)) && str(t[q]) == str(t[q % k]);
   if (!same) { r.add(J::S("irregular")); r.add(o.size()); r.add(t.size()); r.add(x[2]); return r; }
   for (std::size_t q = 0; q < k; ++q) { a.add(o[q]); b.add(t[q]); } r.add(a); r.add(b); r.add(n); return r;
}

#endif
