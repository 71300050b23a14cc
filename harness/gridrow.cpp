#include "parse_slots.hpp"
#include "contview.hpp"
#include "gridview.hpp"
namespace {
template <typename C> void ints(Agree& a, const Row& w, long x, long y) { C c; old(c); J j; bool ok = w.parse(G::col_range_t(x, y), c); j.add(ok); j.add(view(c)); a.put(j); }
template <typename C> void all(Agree& a, const Row& w) { C c; old(c); J j; bool ok = w.parse(c); j.add(ok); j.add(view(c)); a.put(j); }
template <typename C> void checked(Agree& a, const Row& w) { C c; w.parse_checked(c); a.put(view(c)); }
template <typename C> void intsn(Agree& a, const Row& w, std::size_t n) { C c; J j; std::size_t k = w.parse_n(n, c); j.add(k); j.add(view(c)); a.put(j); }
struct Col { J* j; explicit Col(J& x) : j(&x) {} void operator()(const G::range_t& r) const { j->add(bytes(rs(r))); } };
J cell(bool ok, const Slots& w, int n) { J j; j.add(ok); j.add(w.get(n)); return j; }
J vals(const Row& r, const int n)
{
   Slots w; bool ok = false; if ((std::size_t)n > r.size()) return cell(false, w, n);
   switch (n) {
      #define C(N) case N: ok = r.parse(A##N); break;
      UPTO10(C)
      #undef C
   }
   return cell(ok, w, n);
}
#define I1 q[1]
#define I2 I1, q[2]
#define I3 I2, q[3]
#define I4 I3, q[4]
#define I5 I4, q[5]
#define I6 I5, q[6]
#define I7 I6, q[7]
#define I8 I7, q[8]
#define I9 I8, q[9]
#define I10 I9, q[10]
J vals_at(const Row& r, const std::vector<int>& x)
{
   Slots w; bool ok = false; std::size_t q[11] = {0}; const int n = x.size(); for (int k = 0; k < n; ++k) q[k + 1] = x[k];
   switch (n) {
      #define C(N) case N: ok = r.parse_with_index(I##N, A##N); break;
      UPTO10(C)
      #undef C
   }
   return cell(ok, w, n);
}
J pick(Agree& a) { return a.one(); }
}
OP(grid_row)
{
   const std::string t = str(in[0]); Buf b(t); G g(b.cb(), b.n, gopt(in, 1)); const Row w = g.row(in[6].n); const J& e = in[7]; const std::string op = e[0].s;
   if (op == "vals") return vals(w, e[1].n);
   if (op == "vals_at") return vals_at(w, ints(e[1]));
   if (op == "ints") {
      const long x = e[1].n, y = e[2].n; Agree s, u, m; J j;
      ints<std::vector<int> >(s, w, x, y); ints<std::deque<int> >(s, w, x, y); ints<std::list<int> >(s, w, x, y); ints<std::queue<int> >(s, w, x, y); ints<std::stack<int> >(s, w, x, y);
      ints<std::set<int> >(u, w, x, y); ints<std::multiset<int> >(m, w, x, y); ints<std::priority_queue<int> >(m, w, x, y);
      if (x == 0 && y == (long)w.size()) { all<std::vector<int> >(s, w); all<std::deque<int> >(s, w); all<std::queue<int> >(s, w); all<std::stack<int> >(s, w); all<std::set<int> >(u, w); all<std::multiset<int> >(m, w); all<std::priority_queue<int> >(m, w); }
            J a = s.one(), b = u.one(), c = m.one(); if (a[0].n != b[0].n || a[0].n != c[0].n) throw std::runtime_error("containers disagree"); j.add(a[0]); j.add(a[1]); j.add(b[1]); j.add(c[1]); return j;
   }
   if (op == "ints_n") { Agree a; const std::size_t n = e[1].n; intsn<std::vector<int> >(a, w, n); intsn<std::deque<int> >(a, w, n); intsn<std::list<int> >(a, w, n); return pick(a); }
   if (op == "ints_ok") {
      Agree s, u, m; J j;
      checked<std::vector<int> >(s, w); checked<std::deque<int> >(s, w); checked<std::list<int> >(s, w); checked<std::queue<int> >(s, w); checked<std::stack<int> >(s, w);
      { std::vector<int> v; w.parse_checked<int>(std::back_inserter(v)); s.put(view(v)); }
      checked<std::set<int> >(u, w); checked<std::multiset<int> >(m, w); checked<std::priority_queue<int> >(m, w);
      j.add(pick(s)); j.add(pick(u)); j.add(pick(m)); return j;
   }
   if (op == "cols") {
      Agree a; const long x = e[1].n, y = e[2].n;
      { J j, v; std::size_t n = w.for_each_column(G::col_range_t(x, y), Col(v)); j.add(n); j.add(v); a.put(j); }
      if (x == 0 && y == (long)w.size()) {
         { J j, v; std::size_t n = w.for_each_column(Col(v)); j.add(n); j.add(v); a.put(j); }
         { std::vector<std::string> v; w.parse<std::string>(std::back_inserter(v)); J j; j.add(v.size()); j.add(jstrs(v)); a.put(j); }
         { J j, v; std::size_t n = w.for_each_column(w.all_columns(), Col(v)); j.add(n); j.add(v); a.put(j); }
      }
      if (y == (long)w.size()) { J j, v; std::size_t n = w.for_each_column(w.range(x), Col(v)); j.add(n); j.add(v); a.put(j); }
      { J j, v; std::size_t n = w.for_each_column(w.range(x, y), Col(v)); j.add(n); j.add(v); a.put(j); }
      return pick(a);
   }
   // misc
   J j, l, z; std::string s; w.as_string(s);
   for (std::size_t k = 0; k < w.size(); ++k) { l.add(w.raw_length(k)); z.add(w.is_null(k)); }
   j.add(w.size()); j.add(w.as_string() == s ? bytes(s) : J(-1)); j.add(w.raw_length()); j.add(l); j.add(z);
   if (w.range().first != w.token(0).first || w.range().second != w.token(w.size() - 1).second) j.add(J(-1));
   return j;
}
