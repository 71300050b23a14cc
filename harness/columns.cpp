#include "parse_slots.hpp"
#include "contview.hpp"
#include "strtk.hpp"
using namespace vh;
static J cell(bool ok, const J& v) { J j; j.add(ok); j.add(v); return j; }
#define I1 x[0]
#define I2 I1, x[1]
#define I3 I2, x[2]
#define I4 I3, x[3]
#define I5 I4, x[4]
#define I6 I5, x[5]
#define I7 I6, x[6]
#define I8 I7, x[7]
#define I9 I8, x[8]
#define I10 I9, x[9]
#define I11 I10, x[10]
#define I12 I11, x[11]
template <std::size_t N> struct Arr { std::size_t a[N]; explicit Arr(const std::vector<int>& v) { for (std::size_t k = 0; k < N; ++k) a[k] = v[k]; } };
OP(pcols)
{
   const std::string t = str(in[0]), d = str(in[1]); const std::vector<int> x = ints(in[2]); const int n = (int)x.size(); Buf b(t); Agree g; bool ok = false;
   { Slots w; switch (n) {
      #define C(N) case N: ok = strtk::parse_columns(t, d, strtk::column_list(I##N), A##N); break;
      UPTO12(C)
      #undef C
   } g.put(cell(ok, w.get(n))); }
   { Slots w; switch (n) {
      #define C(N) case N: ok = strtk::parse_columns(b.cb(), b.ce(), d, strtk::column_list(Arr<N>(x).a), A##N); break;
      UPTO12(C)
      #undef C
   } g.put(cell(ok, w.get(n))); }
   { Slots w; switch (n) {
      #define C(N) case N: ok = strtk::parse_columns(b.b(), b.e(), d, strtk::column_list(I##N), A##N); break;
      UPTO12(C)
      #undef C
   } g.put(cell(ok, w.get(n))); }
   return g.get();
}
template <typename S> J pseq(const std::string& t, const std::string& d, const std::vector<int>& x, int size)
{
   S a(size, -777), c(a); Buf b(t); bool ok = false, ok2 = false;
   switch (x.size()) {
      #define C(N) case N: ok = strtk::parse_columns(t, d, strtk::column_list(I##N), a); ok2 = strtk::parse_columns(b.cb(), b.ce(), d, strtk::column_list(I##N), c); break;
      UPTO12(C)
      #undef C
   }
   Agree g; g.put(cell(ok, view(a))); g.put(cell(ok2, view(c))); return g.one();
}
OP(pcolseq)
{
   const std::string t = str(in[0]), d = str(in[1]); const std::vector<int> x = ints(in[2]); const int n = in[3].n; Agree g;
   g.put(pseq<std::vector<int> >(t, d, x, n)); g.put(pseq<std::deque<int> >(t, d, x, n));
   return g.get();
}
typedef std::pair<const char*,const char*> Rg;
template <typename Sel> J feed(Sel sel, const J& rows, Slots& w, int n)
{
   J out;
   for (std::size_t r = 0; r < rows.size(); ++r) {
      if (r) sel.reset();
      for (std::size_t f = 0; f < rows[r].size(); ++f) { Buf b(str(rows[r][f])); if (f % 2) { *sel = Rg(b.cb(), b.ce()); ++sel; } else { *sel = std::make_pair(b.b(), b.e()); sel++; } }
      out.add(w.get(n));
   }
   return out;
}
OP(csel)
{
   const std::vector<int> x = ints(in[0]); const int n = (int)x.size(); Slots w; J r, all;
   switch (n) {
      #define C(N) case N: { const auto cl = strtk::column_list(I##N); r = feed(strtk::column_selector(cl, A##N), in[1], w, n); } break;
      UPTO12(C)
      #undef C
      default: break;
   }
   all.add(r); return all;
}
OP(cselsplit)
{
   const std::string t = str(in[0]), d = str(in[1]); const std::vector<int> x = ints(in[3]); const int n = (int)x.size(), opt = in[2].n; Buf b(t); Agree g;
   const strtk::split_options::type so = (strtk::split_options::type)opt;
   { Slots w; switch (n) {
      #define C(N) case N: strtk::split(strtk::multiple_char_delimiter_predicate(d), b.cb(), b.ce(), strtk::column_selector(strtk::column_list(I##N), A##N), so); break;
      UPTO12(C)
      #undef C
   } g.put(w.get(n)); }
   { Slots w; switch (n) {
      #define C(N) case N: strtk::split(strtk::multiple_char_delimiter_predicate(d), t, strtk::column_selector(strtk::column_list(I##N), A##N), so); break;
      UPTO12(C)
      #undef C
   } g.put(w.get(n)); }
   return g.get();
}
template <typename Sel, typename S> J feedseq(Sel sel, const J& rows, const S& c)
{
   J out;
   for (std::size_t r = 0; r < rows.size(); ++r) {
      if (r) sel.reset();
      for (std::size_t f = 0; f < rows[r].size(); ++f) { Buf b(str(rows[r][f])); *sel = Rg(b.cb(), b.ce()); ++sel; }
      out.add(view(c));
   }
   return out;
}
template <typename S> J sseq(const std::vector<int>& x, const J& rows, int size)
{
   S c(size, -777);
   try {
      switch (x.size()) {
         #define C(N) case N: { const auto cl = strtk::column_list(I##N); return feedseq(strtk::column_selector(cl, c), rows, c); }
         UPTO10(C)
         #undef C
      }
   } catch (const std::invalid_argument&) { J j; j.add(-1); return j; }
   return J();
}
OP(cselseq)
{
   const std::vector<int> x = ints(in[0]); const int n = in[2].n; Agree g;
   g.put(sseq<std::vector<int> >(x, in[1], n)); g.put(sseq<std::deque<int> >(x, in[1], n)); g.put(sseq<std::list<int> >(x, in[1], n));
   return g.get();
}
