#include "agree.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
#include <deque>
#include <list>
using namespace vh;
namespace {
typedef std::string S; typedef strtk::bitwise_operation::type OpT;
S combine(OpT op, const S& a, const S& b, const S& old)
{
   Agree g; { S o = old; strtk::bitwise_transform(op, a, b, o); g.put(bytes(o)); } { S x = a; strtk::bitwise_transform(op, x, b, x); if (a.size() == b.size()) g.put(bytes(x)); }
   if (a.size() == b.size()) {
      Buf p(a), q(b), o(a.size(), 'x'); strtk::bitwise_transform(op, p.cb(), p.ce(), q.cb(), o.b()); g.put(bytes(o.s())); if (p.s() != a || q.s() != b) throw std::runtime_error("operand changed");
      Buf u(a.size(), 'y'); strtk::bitwise_transform(op, p.ub(), p.ue(), q.ub(), u.mub()); g.put(bytes(u.s()));
      strtk::bitwise_transform(op, p.cb(), p.ce(), q.cb(), q.b()); g.put(bytes(q.s())); }
   return str(g.one());
}
template <std::size_t N> J spread()
{
   typedef typename strtk::interleave_ary<N>::type T; std::vector<T> t(256); strtk::create_nway_interleave_table<N>(t.data()); J j;
   for (int b = 0; b < 256; ++b) { J p; for (std::size_t k = 0; k < 8 * sizeof(T); ++k) if ((t[b] >> k) & 1) p.add((int)k); j.add(p); }
   return j;
}
J word(unsigned int h) { J j; j.add((int)(h >> 16)); j.add((int)(h & 0xFFFF)); return j; }
template <typename T> std::vector<T> elems(const J& l) { std::vector<T> v; for (std::size_t k = 0; k < l.size(); ++k) { S s = str(l[k]); T t; std::memcpy(&t, s.data(), sizeof t); v.push_back(t); } return v; }
template <typename T> void digests(const std::vector<T>& v, unsigned int seed, Agree& g, Agree& d)
{
   #define H(...) g.put(word(strtk::hash(__VA_ARGS__, seed))); d.put(word(strtk::hash(__VA_ARGS__)));
   std::vector<T> w = v; const std::deque<T> q(v.begin(), v.end()); const std::list<T> l(v.begin(), v.end());
   T* m = (T*)std::malloc(v.size() * sizeof(T)); std::copy(v.begin(), v.end(), m); const T* c = m;
   H(v) H(q) H(l) H(v.begin(), v.size()) H(w.begin(), w.size()) H(q.begin(), q.size()) H(l.begin(), l.size()) H(m, v.size()) H(c, v.size())
   std::free(m);
}
}
OP(combine)
{
   const S a = str(in[0]), b = str(in[1]), o = str(in[2]); J r, x; x.add(a.size() == b.size()); x.add(bytes(combine(strtk::bitwise_operation::eAND, a, b, o))); x.add(bytes(combine(strtk::bitwise_operation::eOR, a, b, o))); x.add(bytes(combine(strtk::bitwise_operation::eXOR, a, b, o))); r.add(x); return r;
}
OP(interleave)
{
   const S a = str(in[0]), b = str(in[1]); Agree g; J r;
   { S o = str(in[2]); const bool k = strtk::twoway_bitwise_interleave(a, b, o); J x; x.add(k); x.add(bytes(o)); g.put(x); }
   Buf p(a), q(b);
   for (int odd = 0; odd < 2; ++odd) { Buf o(2 * a.size() + odd, 'x'); const S was = o.s(); const bool k = strtk::twoway_bitwise_interleave(p.cb(), p.ce(), q.cb(), q.ce(), o.b() + odd); if (!k && o.s() != was) throw std::runtime_error("written"); J x; x.add(k); x.add(k ? bytes(o.s().substr(odd)) : in[2]); g.put(x); }
   { Buf o(2 * a.size(), 'x'); const bool k = strtk::twoway_bitwise_interleave(p.ub(), p.ue(), q.ub(), q.ue(), o.mub()); J x; x.add(k); x.add(k ? bytes(o.s()) : in[2]); g.put(x); }
   r.add(g.one()); return r;
}
OP(distance)
{
   const S a = str(in[0]), b = str(in[1]); Buf p(a), q(b); Agree g, e;
   g.put((long long)strtk::hamming_distance(a, b)); g.put((long long)strtk::hamming_distance(p.cb(), p.ce(), q.cb(), q.ce())); g.put((long long)strtk::hamming_distance(p.ub(), p.ue(), q.ub(), q.ue())); g.put((long long)strtk::hamming_distance(b, a));
   e.put((long long)strtk::hamming_distance_elementwise(a, b)); e.put((long long)strtk::hamming_distance_elementwise(p.cb(), p.ce(), q.cb(), q.ce()));
   { std::list<char> x(a.begin(), a.end()), y(b.begin(), b.end()); e.put((long long)strtk::hamming_distance_elementwise(x.begin(), x.end(), y.begin(), y.end())); }
   { std::vector<int> x(a.begin(), a.end()), y(b.begin(), b.end()); e.put((long long)strtk::hamming_distance_elementwise(x.begin(), x.end(), y.begin(), y.end())); }
   J r, x; x.add(g.one()); x.add(e.one()); r.add(x); return r;
}
OP(ones)
{
   const S a = str(in[0]); Buf p(a); Agree g; g.put((long long)strtk::high_bit_count(a)); g.put((long long)strtk::high_bit_count(p.cb(), p.ce())); g.put((long long)strtk::high_bit_count(p.ub(), p.ue()));
   if (a.size() == 1) g.put((long long)strtk::high_bit_count((unsigned char)a[0]));
   #define W(T) if (a.size() == sizeof(T)) { T t; std::memcpy(&t, a.data(), sizeof t); g.put((long long)strtk::high_bit_count(t)); }
   W(unsigned short) W(unsigned int) W(long long)
   J r; r.add(g.one()); return r;
}
OP(setbits)
{
   Buf b(str(in[0])); for (std::size_t k = 0; k < in[1].size(); ++k) { const std::size_t at = (std::size_t)in[1][k][0].n; if (in[1][k][1].n) strtk::set_bit_high(at, b.mub()); else strtk::set_bit_low(at, b.mub()); }
   J s; for (std::size_t k = 0; k < 8 * b.n; ++k) s.add(strtk::bit_state(k, b.ub())); J r; r.add(bytes(b.s())); r.add(s); return r;
}
OP(spread) { J r; r.add(in[0].n == 2 ? spread<2>() : in[0].n == 4 ? spread<4>() : spread<8>()); return r; }
OP(digest)
{
   const unsigned int seed = ((unsigned int)in[0][0].n << 16) | (unsigned int)in[0][1].n; const J& l = in[1]; Agree g, d;
   std::size_t w = l.size() ? l[0].size() : 1;
   if (w == 1) { std::vector<char> c = elems<char>(l); digests(c, seed, g, d); digests(elems<unsigned char>(l), seed, g, d); S s(c.begin(), c.end()); const S k = s; H(s) H(k) H(s.begin(), s.size()) }
   else if (w == 4) { digests(elems<int>(l), seed, g, d); digests(elems<unsigned int>(l), seed, g, d); }
   else { digests(elems<double>(l), seed, g, d); digests(elems<unsigned long long>(l), seed, g, d); }
   J r; r.add(g.one()); r.add(d.one()); return r;
}
OP(bits_bulk)
{
   const std::size_t n = in[2].n; J r; J d; const S a = times(str(in[0]), n), b = times(str(in[1]), n); J call; call.add(bytes(a)); call.add(bytes(b)); call.add(J());
   { J x = op_distance(call)[0]; r.add(x[0]); r.add(x[1]); } r.add(op_ones(call)[0]);
   { J x = op_combine(call)[0]; for (std::size_t k = 1; k < 4; ++k) r.add(packed(str(x[k]), n)); }
   r.add(packed(str(op_interleave(call)[0][1]), n)); return r;
}
OP(digest_bulk) { const std::size_t n = in[2].n; J call, l; for (std::size_t k = 0; k < n; ++k) for (std::size_t e = 0; e < in[1].size(); ++e) l.add(in[1][e]); call.add(in[0]); call.add(l); return op_digest(call); }
OP(setbits_bulk)
{
   const std::size_t n = in[0].n; Buf b(S(n, '\0')); J r, at; for (std::size_t k = 0; k < in[1].size(); ++k) strtk::set_bit_high((std::size_t)in[1][k].n, b.mub());
   for (std::size_t k = 0; k < 8 * n; ++k) if (strtk::bit_state(k, b.ub())) at.add(k); r.add(at); J bs; for (std::size_t k = 0; k < n; ++k) if (b.ub()[k]) { J x; x.add(k); x.add((int)b.ub()[k]); bs.add(x); } r.add(bs);
   for (std::size_t k = 0; k < in[1].size(); ++k) strtk::set_bit_low((std::size_t)in[1][k].n, b.mub()); r.add(b.s() == S(n, '\0')); return r;
}
