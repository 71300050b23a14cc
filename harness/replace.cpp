#include "agree.hpp"
#include "bulk.hpp"
#include <list>
#include "strtk.hpp"
using namespace vh;
OP(replace)
{
   const std::string s = str(in[0]), p = str(in[1]), r = str(in[2]); Buf bs(s), bp(p), br(r); Agree g;
   { std::string n("old contents"); strtk::replace_pattern(s, p, r, n); J j; j.add(bytes(n)); j.add(n.size()); g.put(j); }
   std::size_t z;
   { std::string n; z = strtk::replace_pattern(bs.cb(), bs.ce(), bp.cb(), bp.ce(), br.cb(), br.ce(), std::back_inserter(n)); J j; j.add(bytes(n)); j.add(z); g.put(j); }
   { std::string n; std::size_t y = strtk::replace_pattern(s.begin(), s.end(), p.begin(), p.end(), r.begin(), r.end(), std::back_inserter(n)); J j; j.add(bytes(n)); j.add(y); g.put(j); }
   if (z < 1000000) { Buf o(z, 'x'); strtk::replace_pattern(bs.cb(), bs.ce(), bp.cb(), bp.ce(), br.cb(), br.ce(), o.b()); J j; j.add(bytes(o.s())); j.add(z); g.put(j); }
   if (r.empty()) { std::string n("zz"); strtk::remove_pattern(s, p, n); J j; j.add(bytes(n)); j.add(n.size()); g.put(j); }
   return g.get();
}
OP(replace_char)
{
   const std::string s = str(in[0]); const char a = (char)in[1].n, b = (char)in[2].n; Agree g;
   { std::string t(s); strtk::replace(a, b, t); g.put(bytes(t)); }
   { Buf t(s); strtk::replace(a, b, t.b(), t.e()); g.put(bytes(t.s())); }
   { Buf t(s); strtk::replace(a, b, strtk::range::adapter<char>(t.b(), t.e())); g.put(bytes(t.s())); }
   { std::list<char> l(s.begin(), s.end()); strtk::replace<std::list<char>::iterator>(a, b, l.begin(), l.end()); g.put(bytes(l.begin(), l.end())); }
   return g.get();
}
OP(replace_bulk)
{
   const std::string u = str(in[1]), t = str(in[3]); const std::size_t n = in[2].n; J x; x.add(bytes(times(u, n) + t)); x.add(in[0]); x.add(in[4]); J r = op_replace(x), z; if (r.size() != 1) return J(-1);
   J y; y.add(bytes(u)); y.add(in[0]); y.add(in[4]); const std::size_t q = op_replace(y)[0][0].size(); z.add(r[0][1]); z.add(packed(str(r[0][0]), q, n)); return z;
}
