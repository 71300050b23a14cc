#ifndef GRIDVIEW_HPP
#define GRIDVIEW_HPP
#include "agree.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
using namespace vh;
typedef strtk::token_grid G;
typedef G::row_type Row;
inline std::string rs(const G::range_t& r) { return std::string(r.first, r.second); }
inline G::options gopt(const J& i, std::size_t k) { return G::options(strtk::split_options::compress_delimiters, i[k + 2].n, str(i[k]), str(i[k + 1]), i[k + 3].n != 0, i[k + 4].n != 0); }
// every cell as text, the column limits (the lower one only when there are rows)
inline J see(const G& g)
{
   J rows, j;
   for (std::size_t r = 0; r < g.row_count(); ++r) { J x; for (std::size_t c = 0; c < g.row(r).size(); ++c) x.add(bytes(rs(g.token(r, c)))); rows.add(x); }
   j.add(rows); j.add(g.max_column_count()); j.add(g.row_count() ? g.min_column_count() : 0); return j;
}
inline bool cellp(int p, const std::string& t) { switch (p) { case 1: return true; case 2: return t.empty(); case 3: return t == "a"; case 4: return t.size() % 2 == 1; } return false; }
struct CellP { int p; explicit CellP(int x) : p(x) {} bool operator()(const G::range_t& r) const { return cellp(p, rs(r)); } };
struct RowP {
   int p; int calls; std::string last; explicit RowP(int x) : p(x), calls(0) {}
   bool operator()(const Row& r) {
      const std::string f = rs(r.token(0)); bool res = false; const bool first = calls++ == 0;
      switch (p) { case 1: res = true; break; case 2: res = r.size() % 2 == 0; break; case 3: res = f == "a"; break; case 4: res = r.index() % 2 == 1; break; case 5: res = r.is_null(0); break; case 10: res = !first && f != last; break; case 11: res = first || f != last; break; }
      last = f; return res;
   }
};
// the same range written the two ways the grid offers
inline G::row_range_t rr(long a, long b) { return G::row_range_t((G::index_t)a, (G::index_t)b); }
// many rows: the cells as text, packed
inline std::string lines(const G& g, std::size_t a, std::size_t b) { std::string s; for (std::size_t r = a; r < b; ++r) { const std::size_t k = g.row(r).size(); for (std::size_t c = 0; c < k; ++c) { s += rs(g.token(r, c)); s += '|'; } s += '\n'; } return s; }
inline J limits(const G& g) { J j; j.add(g.row_count()); j.add(g.max_column_count()); j.add(g.row_count() ? g.min_column_count() : 0); return j; }
#endif
