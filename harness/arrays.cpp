#include "agree.hpp"
#include "strtk.hpp"
#include <deque>
#include <list>
using namespace vh;
namespace {
typedef std::string S; typedef unsigned char U;
template <std::size_t N> void same(Agree& g, const S& a, const S& b)
{
   Buf x(a), y(b);
   g.put(J(strtk::memcmp_n<N>(x.ub(), y.ub()))); g.put(J(strtk::memcmp_n<N>(x.cb(), y.cb())));
   { U p[N], q[N]; std::memcpy(p, a.data(), N); std::memcpy(q, b.data(), N); g.put(J(strtk::memcmp_n<N>(p, q))); }
   // more cells than are compared
   { U p[N + 3], q[N + 5]; std::memset(p, 1, sizeof p); std::memset(q, 2, sizeof q); std::memcpy(p, a.data(), N); std::memcpy(q, b.data(), N); g.put(J(strtk::memcmp_n<N>(p, q))); }
   // not at the start of anything
   { S z = "?" + a + "!", w = "???" + b; Buf s(z), t(w); g.put(J(strtk::memcmp_n<N>(s.cb() + 1, t.cb() + 3))); }
}
J out(bool ok, const U* a, std::size_t n) { J j; j.add(ok); j.add(bytes(S((const char*)a, n))); return j; }
template <std::size_t N> struct Heap { struct B { U d[N]; }; B* b; Heap() : b((B*)std::malloc(sizeof(B))) { std::memset(b->d, 81, N); } ~Heap() { std::free(b); } };
template <std::size_t N, std::size_t M> void setm(Agree& g, const S& s, bool pad, U byte)
{
   Heap<N> d; Heap<M> h; std::memcpy(h.b->d, s.data(), M);
   { const bool ok = strtk::set_array(d.b->d, h.b->d, pad, byte); g.put(out(ok, d.b->d, N)); }
   if (!pad) { Heap<N> e; const bool ok = strtk::set_array(e.b->d, h.b->d); g.put(out(ok, e.b->d, N)); }
   if (pad && byte == '0') { Heap<N> e; const bool ok = strtk::set_array(e.b->d, h.b->d, true); g.put(out(ok, e.b->d, N)); }
   if (std::memcmp(h.b->d, s.data(), M)) throw std::runtime_error("source changed");
}
template <std::size_t N> void setn(Agree& g, const S& s, bool pad, U byte)
{
   { Heap<N> d; const bool ok = strtk::set_array(d.b->d, s, pad, byte); g.put(out(ok, d.b->d, N)); }
   if (!pad) { Heap<N> e; const bool ok = strtk::set_array(e.b->d, s); g.put(out(ok, e.b->d, N)); }
   if (pad && byte == '0') { Heap<N> e; const bool ok = strtk::set_array(e.b->d, s, true); g.put(out(ok, e.b->d, N)); }
   #define M(K) case K: setm<N, K>(g, s, pad, byte); break;
   switch (s.size()) { M(1) M(2) M(3) M(4) M(5) M(6) M(7) M(8) M(9) M(10) M(11) M(12) default: break; }
   #undef M
}
template <std::size_t N, typename T> void clr(Agree& g, std::size_t len, int byte)
{
   struct B { T d[N]; }; B* b = (B*)std::malloc(sizeof(B)); for (std::size_t k = 0; k < N; ++k) b->d[k] = T(81);
   const bool ok = len == N ? strtk::clear_array(b->d, T(byte)) : strtk::clear_array(b->d, T(byte), len); S s; for (std::size_t k = 0; k < N; ++k) s += (char)(U)b->d[k]; std::free(b);
   J j; j.add(ok); j.add(bytes(s)); g.put(j);
}
template <std::size_t N> void clrn(Agree& g, std::size_t len, int byte) { clr<N, U>(g, len, byte); clr<N, char>(g, len, byte); clr<N, long long>(g, len, byte); clr<N, double>(g, len, byte); }
template <std::size_t N> void mk(Agree& g, const S& a, std::size_t len)
{
   struct C { char d[N]; }; C* c = (C*)std::malloc(N); std::memcpy(c->d, a.data(), N); Heap<N> u; std::memcpy(u.b->d, a.data(), N);
   { J j; j.add(bytes(strtk::make_string(c->d, len))); j.add(bytes(strtk::make_string(c->d))); g.put(j); } { J j; j.add(bytes(strtk::make_string(u.b->d, len))); j.add(bytes(strtk::make_string(u.b->d))); g.put(j); }
   if (len <= N) { J j; j.add(bytes(strtk::make_string(std::make_pair((const char*)c->d, (const char*)c->d + len)))); j.add(bytes(a)); g.put(j); } std::free(c);
}
template <typename C> C seq(const S& s) { return C(s.begin(), s.end()); }
}
#define NS(F, n, ...) switch (n) { case 1: F<1>(__VA_ARGS__); break; case 2: F<2>(__VA_ARGS__); break; case 3: F<3>(__VA_ARGS__); break; case 4: F<4>(__VA_ARGS__); break; case 5: F<5>(__VA_ARGS__); break; case 6: F<6>(__VA_ARGS__); break; \
   case 7: F<7>(__VA_ARGS__); break; case 8: F<8>(__VA_ARGS__); break; case 9: F<9>(__VA_ARGS__); break; case 10: F<10>(__VA_ARGS__); break; case 11: F<11>(__VA_ARGS__); break; case 12: F<12>(__VA_ARGS__); break; default: BIG(F, n, __VA_ARGS__) }
#define BIG(F, n, ...) throw std::runtime_error("size");
OP(setarray) { const S s = str(in[1]); Agree g; NS(setn, in[0].n, g, s, in[2].n != 0, (U)in[3].n) return g.one(); }
OP(cleararray) { Agree g; NS(clrn, in[0].n, g, (std::size_t)in[1].n, (int)in[2].n) return g.one(); }
OP(makestring) { const S s = str(in[0]); Agree g; NS(mk, s.size(), g, s, (std::size_t)in[1].n) return g.one(); }
#undef BIG
#define BIG(F, n, ...) switch (n) { case 13: F<13>(__VA_ARGS__); break; case 14: F<14>(__VA_ARGS__); break; case 15: F<15>(__VA_ARGS__); break; case 16: F<16>(__VA_ARGS__); break; case 17: F<17>(__VA_ARGS__); break; case 18: F<18>(__VA_ARGS__); break; \
   case 19: F<19>(__VA_ARGS__); break; case 20: F<20>(__VA_ARGS__); break; case 21: F<21>(__VA_ARGS__); break; case 22: F<22>(__VA_ARGS__); break; case 23: F<23>(__VA_ARGS__); break; case 24: F<24>(__VA_ARGS__); break; case 31: F<31>(__VA_ARGS__); break; case 47: F<47>(__VA_ARGS__); break; default: throw std::runtime_error("size"); }
OP(same) { const S a = str(in[0]), b = str(in[1]); Agree g; NS(same, a.size(), g, a, b) J r; r.add(g.one()); return r; }
OP(inplace)
{
   const S s = str(in[0]); const std::size_t f = in[1].n, t = in[2].n; const char v = (char)in[3].n; Agree a, r; typedef std::pair<const char*, const char*> P;
   { Buf b(s); strtk::fill(P(b.cb() + f, b.cb() + t), v); a.put(bytes(b.cb(), b.ce())); } { Buf b(s); strtk::fill(strtk::range::adapter<const char>(b.cb() + f, b.cb() + t), v); a.put(bytes(b.cb(), b.ce())); } { Buf b(s); strtk::fill(strtk::range::adapter<const U>(b.ub() + f, b.ub() + t), (U)v); a.put(bytes(b.cb(), b.ce())); }
   { Buf b(s); strtk::reverse(P(b.cb() + f, b.cb() + t)); r.put(bytes(b.cb(), b.ce())); } { Buf b(s); strtk::reverse(strtk::range::adapter<const char>(b.cb() + f, b.cb() + t)); r.put(bytes(b.cb(), b.ce())); } { Buf b(s); strtk::reverse(strtk::range::adapter<const U>(b.ub() + f, b.ub() + t)); r.put(bytes(b.cb(), b.ce())); }
   { Buf b(s); strtk::reverse(strtk::range::adapter<char>(b.b() + f, b.b() + t)); r.put(bytes(b.cb(), b.ce())); } { Buf b(s); strtk::reverse(strtk::range::adapter<U>(b.mub() + f, b.mub() + t)); r.put(bytes(b.cb(), b.ce())); }
   if (f == 0 && t == s.size())
   {
      { S x(s); const S keep(s); strtk::fill(x, v); a.put(bytes(x)); if (keep != s) throw std::runtime_error("copy"); } { S x(s.data(), s.size()); strtk::reverse(x); r.put(bytes(x)); }
      { std::vector<char> x = seq<std::vector<char> >(s); strtk::fill(x, v); a.put(bytes(S(x.begin(), x.end()))); } { std::list<char> x = seq<std::list<char> >(s); strtk::fill(x, v); a.put(bytes(S(x.begin(), x.end()))); } { std::deque<int> x = seq<std::deque<int> >(s); strtk::fill(x, (int)v); a.put(bytes(S(x.begin(), x.end()))); }
   }
   J o; o.add(a.one()); o.add(r.one()); return o;
}
OP(ends)
{
   const S s = str(in[0]); Buf b(s); Agree t, n; const std::pair<const char*, const char*> p(b.cb(), b.ce()); const strtk::range::string rs(b.b(), b.e());
   #define P(A) { t.put(bytes((A).first, (A).second)); n.put(J(strtk::distance(A))); }
   P((strtk::make_pair<const char*, const char*>(s))) P((strtk::make_pair<char*, char*>(s))) P((strtk::make_pair<U*, U*>(s))) P((strtk::make_pair<const U*, const U*>(s))) P(strtk::make_pair<const char*>(s)) P(strtk::make_pair<const U*>(s)) P(strtk::make_pair<char*>(s))
   P((strtk::make_pair<const U*, const U*>(p))) P((strtk::make_pair<U*, U*>(p))) P(strtk::make_pair<const U*>(p)) P(strtk::make_pair<char*>(p)) P((strtk::make_pair<const U*, const U*>(rs))) P((strtk::make_pair<const char*, const char*>(rs)))
   { const std::list<char> l(s.begin(), s.end()); n.put(J(strtk::distance(std::make_pair(l.begin(), l.end())))); } n.put(J(strtk::distance(p)));
   J o; o.add(t.one()); o.add(n.one()); return o;
}
