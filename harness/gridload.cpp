#include "gridview.hpp"
namespace {
// what row objects and visitors report must be what token() reports
struct Visit { J* j; explicit Visit(J& x) : j(&x) {} void operator()(const Row& r) const { J x; for (std::size_t c = 0; c < r.size(); ++c) x.add(bytes(rs(r.token(c)))); j->add(x); } };
J byrow(const G& g)
{
   J rows, j; g.for_each_row(Visit(rows)); std::size_t m = 0, n = (std::size_t)-1;
   for (std::size_t r = 0; r < g.row_count(); ++r) { m = std::max(m, g.row(r).size()); n = std::min(n, g.row(r).size()); }
   j.add(rows); j.add(m); j.add(g.row_count() ? n : 0); return j;
}
J byvalue(G& g)
{
   J rows, j;
   for (std::size_t r = 0; r < g.row_count(); ++r) {
      J x; Row w = g.row(r); if (w.index() != r) x.add("index"); 
      for (std::size_t c = 0; c < w.size(); ++c) {
         std::string v = g.get<std::string>(r, c), u = w.get<std::string>(c), o = w.operator[]<std::string>(c);
         x.add(v == u && u == o ? bytes(v) : J(-1));
      }
      rows.add(x);
   }
   if (g.token(g.row_count(), 0).first || g.token(0, g.max_column_count()).first) rows.add(J(-2));
   j.add(rows); j.add(g.max_column_count()); j.add(g.row_count() ? g.min_column_count() : 0); return j;
}
void all(Agree& a, G& g) { a.put(see(g)); a.put(byrow(g)); a.put(byvalue(g)); if (!g) a.put(J(-3)); }
}
OP(grid_load)
{
   const std::string t = str(in[0]), rd = str(in[1]), cd = str(in[2]); const G::options o = gopt(in, 1); Agree a; Buf b(t), b2(t);
   { G g(b.ub(), b.n, o); all(a, g); }
   { G g(b.cb(), b.n, o); a.put(see(g)); }
   { G g(t, t.size(), o); a.put(see(g)); }
   { G g; g.load(b2.mub(), b2.n, o); all(a, g); }
   { G::options p; p.set_row_delimiters(rd).set_column_delimiters(cd).set_column_split_option(in[3].n).set_row_split_option(strtk::split_options::default_mode); p.support_dquotes = in[4].n; p.trim_dquotes = in[5].n; G g(t, t.size(), p); a.put(see(g)); }
   if (in[3].n == 1) { G::options p = G::default_options(); p.set_row_delimiters(rd).set_column_delimiters(cd); p.support_dquotes = in[4].n; p.trim_dquotes = in[5].n; G g(t, t.size(), p); a.put(see(g)); }
   const bool nodq = in[3].n == 1 && in[4].n == 0 && in[5].n == 0 && rd == "\n\r";
   // what applies when no option is given
   if (nodq && cd == ",|;\t ") { G k(t, t.size(), G::default_options()); a.put(see(k)); G m(t, t.size(), G::options()); a.put(see(m)); }
   if (nodq && cd == ",|;\t") { G g(t, t.size()); a.put(see(g)); G h(b.cb(), b.n); a.put(see(h)); G u(b.ub(), b.n); a.put(see(u)); if (!t.empty()) { { std::ofstream f("plain", std::ios::binary); f.write(t.data(), t.size()); } G f(std::string("plain")); a.put(see(f)); G e("plain"); a.put(see(e)); } }
   if (in[3].n == 1 && in[4].n == 0) {
      { G g(b.ub(), b.n, cd, rd); a.put(see(g)); }
      { G g(b.cb(), b.n, cd, rd); a.put(see(g)); }
      { G g(t, t.size(), cd, rd); a.put(see(g)); }
   }
   if (!t.empty()) {
      { std::ofstream f("grid.txt", std::ios::binary); f.write(t.data(), t.size()); }
      { G g(std::string("grid.txt"), o); all(a, g); if (g.source_file() != "grid.txt") a.put(J(-4)); }
      { G g; if (!g.load("grid.txt", o)) a.put(J(-5)); a.put(see(g)); }
      { G g(t, t.size(), o); g.load("grid.txt", o); a.put(see(g)); g.load(b2.mub(), b2.n, o); a.put(see(g)); g.load("grid.txt", o); a.put(see(g)); }
      if (in[3].n == 1 && in[4].n == 0) { G g(std::string("grid.txt"), cd, rd); a.put(see(g)); }
   }
   return a.get();
}
namespace {
struct Lines { std::string* s; explicit Lines(std::string& x) : s(&x) {} void operator()(const Row& r) const { for (std::size_t c = 0; c < r.size(); ++c) { *s += rs(r.token(c)); *s += '|'; } *s += '\n'; } };
J tall(const G& g, std::size_t n) { J j; j.add(limits(g)); j.add(packed(lines(g, 0, g.row_count()), n)); return j; }
}
OP(grid_tall)
{
   const std::size_t n = in[6].n; const std::string t = times(str(in[0]), n); const G::options o = gopt(in, 1); Agree a; Buf b(t);
   G g(b.ub(), b.n, o); a.put(tall(g, n));
   { std::string s; g.for_each_row(Lines(s)); J j; j.add(limits(g)); j.add(packed(s, n)); a.put(j); }
   { std::ofstream f("tall.txt", std::ios::binary); f.write(t.data(), t.size()); }
   { G h(std::string("tall.txt"), o); a.put(tall(h, n)); h.load(b.mub(), b.n, o); a.put(tall(h, n)); }
   return a.one();
}
OP(grid_wide)
{
   const std::size_t n = in[6].n; const std::string t = times(str(in[0]), n) + str(in[7]); Agree a; Buf b(t); G g(b.ub(), b.n, gopt(in, 1)); if (g.row_count() != 1) return J(-1);
   const Row r = g.row(0); const std::size_t k = r.size(); if (k != g.max_column_count() || k != g.min_column_count() || k == 0) return J(-2);
   { std::string s; for (std::size_t c = 0; c + 1 < k; ++c) { s += rs(r.token(c)); s += '|'; } J j; j.add(k); j.add(packed(s, n)); j.add(bytes(rs(r.token(k - 1)))); a.put(j); }
   { std::vector<std::string> v, w; r.parse<std::string>(std::back_inserter(v)); if (!r.parse(G::col_range_t(0, (G::index_t)k), w) || v != w || v.size() != k) return J(-3); std::string s; for (std::size_t c = 0; c + 1 < k; ++c) { s += v[c]; s += '|'; } J j; j.add(k); j.add(packed(s, n)); j.add(bytes(v[k - 1])); a.put(j); }
   { std::string s; const std::size_t m = r.as_string().size(); for (std::size_t c = 0; c < k; ++c) s += g.get<std::string>(0, c); if (m != s.size() || s != r.as_string()) return J(-4); }
   return a.one();
}
