#include "gridhist.hpp"
#include "contview.hpp"
namespace {
typedef std::vector<std::string> V; typedef std::vector<int> VI;
J pair2(const J& a, const J& b) { J j; j.add(a); j.add(b); return j; }
J pick(Agree& a) { return a.one(); }
struct PF { J* j; long n; PF(J& x, long k) : j(&x), n(k) {} bool operator()(const G&, const G::row_range_t& r) { j->add(pair2(J(r.first), J(r.second))); return n < 0 || n-- > 0; } };
struct RF { J* j; explicit RF(J& x) : j(&x) {} void operator()(const Row& r) const { j->add(pair2(J(r.index()), bytes(r.as_string()))); } };
#define BI(v) strtk::back_inserter_with_valuetype(v)
J query(G& g, const J& e)
{
   const std::string op = e[0].s;
   const bool ranged = op == "col" || op == "colint" || op == "cols" || op == "acccol" || op == "acccolp" || op == "joincol" || op == "joincolp" || op == "part" || op == "rows" || op == "width";
   const long x = ranged ? e[1].n : 0, y = ranged ? e[2].n : 0; const G::row_range_t R = rr(x, y); const bool all = ranged && x == 0 && y == (long)g.row_count();
   if (op == "col") {
      const std::size_t c = e[3].n; Agree a;
      { V v; bool ok = g.extract_column(R, c, BI(v)); a.put(pair2(ok, jstrs(v))); }
      { V v(g.row_count() + 1, "?"); std::string* p = &v[0]; bool ok = g.extract_column(R, c, p); std::size_t n = 0; while (v[n] != "?") ++n; v.resize(n); a.put(pair2(ok, jstrs(v))); }
      { V v; bool ok = g.extract_column_checked(R, c, BI(v)); a.put(pair2(ok, jstrs(v))); }
      { std::deque<std::string> v; bool ok = g.extract_column(R, c, BI(v)); a.put(pair2(ok, jstrs(v))); }
      if (all) { V v; bool ok = g.extract_column(c, BI(v)); a.put(pair2(ok, jstrs(v))); V u; ok = g.extract_column_checked(c, BI(u)); a.put(pair2(ok, jstrs(u))); }
      return pick(a);
   }
   if (op == "colint") {
      const std::size_t c = e[3].n; Agree s, u, m; J j;
      { VI v; g.extract_column_checked(R, c, BI(v)); s.put(view(v)); }
      { VI v(g.row_count() + 1, -1234567); g.extract_column_checked(R, c, &v[0]); std::size_t n = 0; while (v[n] != -1234567) ++n; v.resize(n); s.put(view(v)); }
      { std::set<int> v; g.extract_column_checked(R, c, strtk::inserter_with_valuetype(v)); u.put(view(v)); }
      { std::multiset<int> v; g.extract_column_checked(R, c, strtk::inserter_with_valuetype(v)); m.put(view(v)); }
      if (all) { VI v; g.extract_column_checked(c, v); s.put(view(v)); std::set<int> w; g.extract_column_checked(c, w); u.put(view(w)); std::multiset<int> z; g.extract_column_checked(c, z); m.put(view(z)); }
      j.add(pick(s)); j.add(pick(u)); j.add(pick(m));
      VI v; int how = 1; try { g.extract_column(R, c, BI(v)); } catch (const std::invalid_argument&) { how = 2; }
      j.add(pair2(how, view(v))); return j;
   }
   if (op == "cols") {
      VI c = ints(e[3]); V v[5]; bool ok = false; J j;
      switch (c.size()) {
         case 1: ok = g.extract_column(R, c[0], BI(v[0])); break;
         case 2: ok = g.extract_column(R, c[0], c[1], BI(v[0]), BI(v[1])); break;
         case 3: ok = g.extract_column(R, c[0], c[1], c[2], BI(v[0]), BI(v[1]), BI(v[2])); break;
         case 4: ok = g.extract_column(R, c[0], c[1], c[2], c[3], BI(v[0]), BI(v[1]), BI(v[2]), BI(v[3])); break;
         case 5: ok = g.extract_column(R, c[0], c[1], c[2], c[3], c[4], BI(v[0]), BI(v[1]), BI(v[2]), BI(v[3]), BI(v[4])); break;
      }
      for (std::size_t k = 0; k < c.size(); ++k) j.add(jstrs(v[k])); return pair2(ok, j);
   }
   if (op == "accrow") { int s = 0; double d = 0; std::size_t n = g.accumulate_row(e[1].n, s), m = g.accumulate_row(e[1].n, d); if (n && (n != m || (double)s != d)) throw std::runtime_error("inconsistent"); return pair2(n, n ? s : 0); }
   if (op == "acccol") { Agree a; { int s = 0; std::size_t n = g.accumulate_column(e[3].n, R, s); a.put(pair2(n, n ? s : 0)); } if (all) { int s = 0; std::size_t n = g.accumulate_column(e[3].n, s); a.put(pair2(n, n ? s : 0)); } return pick(a); }
   if (op == "acccolp") { Agree a; { int s = 0; std::size_t n = g.accumulate_column(e[3].n, R, RowP(e[4].n), s); a.put(pair2(n, n ? s : 0)); } if (all) { int s = 0; std::size_t n = g.accumulate_column(e[3].n, RowP(e[4].n), s); a.put(pair2(n, n ? s : 0)); } return pick(a); }
   if (op == "joinrow") { std::string s; bool ok = g.join_row(e[1].n, str(e[2]), s); return pair2(ok, bytes(s)); }
   if (op == "joinrowp") { Agree a; { std::string s; bool ok = g.join_row(e[1].n, CellP(e[3].n), str(e[2]), s); a.put(pair2(ok, bytes(s))); } { std::string s; bool ok = g.join_row(e[1].n, CellP(e[3].n), str(e[2]).c_str(), s); a.put(pair2(ok, bytes(s))); } return pick(a); }
   if (op == "joincol") { Agree a; { std::string s; bool ok = g.join_column(e[3].n, R, str(e[4]), s); a.put(pair2(ok, bytes(s))); } if (all) { std::string s; bool ok = g.join_column(e[3].n, str(e[4]), s); a.put(pair2(ok, bytes(s))); } return pick(a); }
   if (op == "joincolp") { Agree a; { std::string s; bool ok = g.join_column(e[3].n, R, RowP(e[5].n), str(e[4]), s); a.put(pair2(ok, bytes(s))); } if (all) { std::string s; bool ok = g.join_column(e[3].n, RowP(e[5].n), str(e[4]), s); a.put(pair2(ok, bytes(s))); } return pick(a); }
   if (op == "part") { Agree a; { J v; bool ok = g.sequential_partition(R, RowP(e[3].n), PF(v, e[4].n)); a.put(pair2(ok, v)); } if (all) { J v; bool ok = g.sequential_partition(RowP(e[3].n), PF(v, e[4].n)); a.put(pair2(ok, v)); } return pick(a); }
   if (op == "rows") { Agree a; { J v; std::size_t n = g.for_each_row(R, RF(v)); a.put(pair2(n, v)); } if (all) { J v; std::size_t n = g.for_each_row(RF(v)); a.put(pair2(n, v)); J w; n = g.for_each_row(g.all_rows(), RF(w)); a.put(pair2(n, w)); } return pick(a); }
   if (op == "width") { Agree a; a.put(g.column_width(e[3].n, R)); if (all) a.put(g.column_width(e[3].n)); return pick(a); }
   if (op == "widths") { Agree a; { std::vector<std::size_t> v; g.get_column_widths(v); a.put(jints(v)); } { std::deque<std::pair<std::size_t, std::size_t> > v; g.get_column_widths(v); J j; for (std::size_t k = 0; k < v.size(); ++k) j.add(v[k].first == k ? J(v[k].second) : J(-1)); a.put(j); } return pick(a); }
   if (op == "span" || op == "spanend") { G::row_range_t r = op == "span" ? g.range(e[1].n, e[2].n) : g.range(e[1].n); J j, v; std::size_t n = g.for_each_row(r, RF(v)); bool ok = r.first <= r.second && r.second <= g.row_count() && n == r.second - r.first; j.add(ok ? r.first : 0); j.add(ok ? r.second : 0); j.add(ok); return j; }
   return J(-8);
}
}
OP(grid)
{
   Keep keep; J r; const std::string t = str(in[0]); Buf b(t);
   G g(b.ub(), b.n, gopt(in, 1)); r.add(see(g));
   for (std::size_t k = 0; k < in[6].size(); ++k) { long res; if (edit(g, in[6][k], keep, res)) { J x; x.add(res); x.add(see(g)); r.add(x); } else r.add(query(g, in[6][k])); }
   return r;
}
// a text of many rows: whole columns of it
namespace { struct PC { std::size_t* n; G::row_range_t* l; void operator()(std::size_t) {} PC(std::size_t& a, G::row_range_t& b) : n(&a), l(&b) {} bool operator()(const G&, const G::row_range_t& r) { ++*n; *l = r; return true; } };
struct RC { std::string* s; explicit RC(std::string& x) : s(&x) {} void operator()(const Row& r) const { *s += r.as_string(); } }; }
OP(grid_tallq)
{
   const std::size_t n = in[6].n, c = in[7].n; const std::string t = times(str(in[0]), n); Buf b(t); G g(b.ub(), b.n, gopt(in, 1)); J j;
   { Agree a; V v, u; bool ok = g.extract_column(c, BI(v)); std::string s; for (std::size_t k = 0; k < v.size(); ++k) s += v[k] + "|"; J x; x.add(ok); x.add(v.size()); x.add(packed(s, n)); a.put(x);
     std::deque<std::string> d, e; ok = g.extract_column(g.all_rows(), c, c, BI(d), BI(e)); s.clear(); for (std::size_t k = 0; k < d.size(); ++k) s += d[k] + "|"; J y; y.add(ok); y.add(d == e ? d.size() : 0); y.add(packed(s, n)); a.put(y); j.add(pick(a)); }
   { VI v; g.extract_column_checked(c, v); std::string s; for (std::size_t k = 0; k < v.size(); ++k) s += std::to_string(v[k]) + "|"; std::multiset<int> m; g.extract_column_checked(c, m); if (m.size() != v.size()) return J(-1); J x; x.add(v.size()); x.add(packed(s, n)); j.add(x); }
   { int s = 0; std::size_t k = g.accumulate_column(c, s); j.add(pair2(k, k ? s : 0)); }
   { std::string s; bool ok = g.join_column(c, "--", s); j.add(pair2(ok, packed(s + "--", n))); }
   { J x; for (int p = 10; p < 12; ++p) { std::size_t k = 0; G::row_range_t l(0, 0); g.sequential_partition(RowP(p), PC(k, l)); x.add(k); x.add(l.second - l.first); x.add(l.second); } j.add(x); }
   { std::string s; std::size_t k = g.for_each_row(RC(s)); j.add(pair2(k, packed(s, n))); }
   j.add(g.column_width(c)); return j;
}
OP(grid_wideq)
{
   const std::size_t n = in[6].n; const std::string t = times(str(in[0]), n) + str(in[7]); Buf b(t); G g(b.ub(), b.n, gopt(in, 1)); J j;
   { int s = 0; std::size_t k = g.accumulate_row(0, s); j.add(pair2(k, k ? s : 0)); }
   { std::string s; bool ok = g.join_row(0, "--", s); j.add(pair2(ok, packed(s.substr(0, s.size() - std::min(s.size(), in[7].size())), n))); }
   { std::vector<std::size_t> w; g.get_column_widths(w); std::string s; for (std::size_t k = 0; k + 1 < w.size(); ++k) s += std::to_string(w[k]) + "|"; J x; x.add(w.size()); x.add(packed(s, n)); j.add(x); }
   return j;
}
