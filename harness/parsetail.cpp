#include "parse_slots.hpp"
#include "contview.hpp"
#include "strtk.hpp"
using namespace vh;
template <typename C> J run1(const std::string& t, const std::string& d, int k, bool all)
{
   Slots w; C c; old(c); bool ok = false;
   if (all) switch (k) {
      #define CASE(N) case N: ok = strtk::parse(t, d, A##N, c); break;
      UPTO11(CASE)
      #undef CASE
   }
   J j; j.add(ok); j.add(w.get(k)); j.add(view(c)); return j;
}
template <typename C> J run2(const std::string& t, const std::string& d, int k)
{
   Slots w; C c; old(c); bool ok = false;
   switch (k) {
      #define CASE(N) case N: ok = strtk::parse(t, d, A##N, c); break;
      CASE(1) CASE(2) CASE(3)
      #undef CASE
   }
   J j; j.add(ok); j.add(w.get(k)); j.add(view(c)); return j;
}
OP(parse_tail)
{
   const std::string t = str(in[0]), d = str(in[1]), kind = in[3].s; const int k = in[2].n; Agree g;
   if (kind == "seq") {
      g.put(run1<std::vector<int> >(t, d, k, true));
      if (k <= 3) { g.put(run2<std::deque<int> >(t, d, k)); g.put(run2<std::list<int> >(t, d, k)); g.put(run2<std::queue<int> >(t, d, k)); g.put(run2<std::stack<int> >(t, d, k)); }
   } else if (kind == "set") g.put(run1<std::set<int> >(t, d, k, true));
   else { g.put(run1<std::multiset<int> >(t, d, k, true)); if (k <= 3) g.put(run2<std::priority_queue<int> >(t, d, k)); }
   return g.get();
}
