#include "gridhist.hpp"
OP(grid)
{
   Keep keep; Agree a; J r; const std::string t = str(in[0]); Buf b(t);
   G g(b.ub(), b.n, gopt(in, 1)); r.add(see(g));
   for (std::size_t k = 0; k < in[6].size(); ++k) { long res; J x; if (!edit(g, in[6][k], keep, res)) return J(-9); x.add(res); x.add(see(g)); r.add(x); }
   return r;
}
// a text of many rows, one edit of a row range that begins and ends between copies of the piece
OP(grid_talledit)
{
   const std::size_t n = in[6].n, m = in[7].n, x = in[8].n, y = in[9].n; const std::string t = times(str(in[0]), n); Keep keep; Buf b(t); G g(b.ub(), b.n, gopt(in, 1)); long res;
   if (g.row_count() != n * m || !edit(g, in[10], keep, res)) return J(-9);
   const std::size_t c = g.row_count(), p = x * m, q = (n - y) * m; if (c < p + q) return J(-8);
   J j; j.add(res); j.add(limits(g));
   j.add(x ? packed(lines(g, 0, p), x) : J()); j.add(y > x ? packed(lines(g, p, c - q), y - x) : J()); j.add(n > y ? packed(lines(g, c - q, c), n - y) : J());
   return j;
}
