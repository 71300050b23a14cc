#include "parse_slots.hpp"
#include "strtk.hpp"
using namespace vh;
struct Rec { int a; std::string b; unsigned short c; };
strtk_parse_begin(Rec)
   strtk_parse_type(a)
   strtk_parse_type(b)
   strtk_parse_type(c)
strtk_parse_end()
static J cell(bool ok, const Slots& w, int n) { J j; j.add(ok); j.add(w.get(n)); return j; }
OP(parse)
{
   const std::string t = str(in[0]), d = str(in[1]); const int n = in[2].n; Buf b(t); Agree g; bool ok = false;
   { Slots w; switch (n) {
      #define C(N) case N: ok = strtk::parse(t, d, A##N); break;
      UPTO16(C)
      #undef C
   } g.put(cell(ok, w, n)); }
   { Slots w; switch (n) {
      #define C(N) case N: ok = strtk::parse(b.cb(), b.ce(), d, A##N); break;
      UPTO16(C)
      #undef C
   } g.put(cell(ok, w, n)); }
   if (n == 3) { Slots w; Rec r; r.a = w.i[1]; r.b = w.s[2]; r.c = w.u[3]; ok = strtk::parse(t, d, r); w.i[1] = r.a; w.s[2] = r.b; w.u[3] = r.c; g.put(cell(ok, w, n)); }
   if (n <= 5) { Slots w; switch (n) {
      #define C(N) case N: ok = strtk::parse(b.b(), b.e(), d, A##N); break;
      C(1) C(2) C(3) C(4) C(5)
      #undef C
   } g.put(cell(ok, w, n)); }
   return g.get();
}
OP(parse_lines)
{
   const std::string t = str(in[0]), d = str(in[1]); const int n = in[2].n, calls = in[3].n; J all, r;
   { std::ofstream f("lines.txt", std::ios::binary); f.write(t.data(), t.size()); }
   std::ifstream s("lines.txt", std::ios::binary);
   std::ifstream bad("lines.txt", std::ios::binary); bad.setstate(std::ios::failbit);
   for (int k = 0; k < calls; ++k) {
      Slots w; bool ok = false;
      switch (n) {
         #define C(N) case N: ok = strtk::parse_line(bad, d, A##N); if (ok) throw std::runtime_error("a failed stream has no line"); ok = strtk::parse_line(s, d, A##N); break;
         UPTO12(C)
         #undef C
      }
      r.add(cell(ok, w, n));
   }
   all.add(r); return all;
}
struct Args {
   std::vector<std::string> v; std::vector<std::vector<char> > c; std::vector<char*> p;
   explicit Args(const std::vector<std::string>& x) : v(x) { for (std::size_t k = 0; k < v.size(); ++k) { c.push_back(std::vector<char>(v[k].begin(), v[k].end())); c.back().push_back(0); } for (std::size_t k = 0; k < c.size(); ++k) p.push_back(&c[k][0]); }
   char** argv() { return p.empty() ? 0 : &p[0]; }
};
OP(parse_argv)
{
   Args a(strs(in[0])); const int n = in[1].n, argc = (int)a.p.size() - 1; Slots w; std::size_t r = 0;
   switch (n) {
      #define C(N) case N: r = strtk::parse(argc, a.argv(), A##N); break;
      UPTO9(C)
      #undef C
   }
   J j, x; x.add(r); x.add(w.get(n)); j.add(x); return j;
}
template <typename C> J seqrun(Args& a, bool brk) { C c; std::size_t r = strtk::parse((int)a.p.size(), a.argv(), c, brk); J x, v; x.add(r); for (typename C::iterator i = c.begin(); i != c.end(); ++i) v.add(dec((long long)*i)); x.add(v); return x; }
OP(argv_seq)
{
   Args a(strs(in[0])); const bool brk = in[1].n; Agree g;
   g.put(seqrun<std::vector<int> >(a, brk)); g.put(seqrun<std::deque<int> >(a, brk)); g.put(seqrun<std::list<int> >(a, brk));
   if (brk) { std::vector<int> c; std::size_t r = strtk::parse((int)a.p.size(), a.argv(), c); J x, v; x.add(r); for (std::size_t k = 0; k < c.size(); ++k) v.add(dec((long long)c[k])); x.add(v); g.put(x); }
   return g.get();
}
