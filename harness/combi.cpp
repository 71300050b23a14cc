#include "agree.hpp"
#include "strtk.hpp"
using namespace vh;
namespace {
typedef std::vector<int> VI;
VI ivec(const J& j) { VI v; for (std::size_t x = 0; x < j.size(); ++x) v.push_back((int)j[x].n); return v; }
template <typename It> J span(It b, It e) { J j; for (; b != e; ++b) j.add((int)*b); return j; }
struct See { J* out; std::size_t stop; See(J& o, std::size_t s) : out(&o), stop(s) {}
   template <typename It> void operator()(It b, It e) { out->add(span(b, e)); if (out->size() > 2000000) throw std::runtime_error("endless"); } };
struct SeeUntil : See { SeeUntil(J& o, std::size_t s) : See(o, s) {}
   template <typename It> bool operator()(It b, It e) { See::operator()(b, e); return out->size() != stop; } };
template <typename C> void fcomb(Agree& g, C c, std::size_t k, std::size_t stop)
{
   if (!stop) { C d = c; J v; See f(v, 0); strtk::for_each_combination(d.begin(), d.end(), k, f); J r; r.add(v); r.add(span(d.begin(), d.end())); g.put(r); }
   C d = c; J v; SeeUntil f(v, stop); strtk::for_each_combination_conditional(d.begin(), d.end(), k, f);
   J r; r.add(v); r.add(stop && v.size() == stop ? J() : span(d.begin(), d.end())); g.put(r);
}
template <typename C> void fperm(Agree& g, C c, std::size_t stop)
{
   if (!stop) { C d = c; J v; See f(v, 0); strtk::for_each_permutation(d.begin(), d.end(), f); J r; r.add(v); r.add(1); r.add(span(d.begin(), d.end())); g.put(r); }
   C d = c; J v; SeeUntil f(v, stop); const bool all = strtk::for_each_permutation_conditional(d.begin(), d.end(), f);
   J r; r.add(v); r.add(all); r.add(all ? span(d.begin(), d.end()) : J()); g.put(r);
}
template <typename C> bool more_of(C& d, std::size_t k, int form) { return form ? strtk::next_combination(d.begin(), d.begin() + k, d.end()) : strtk::next_combination(d, k); }
bool more_of(std::string& d, std::size_t k, int) { return strtk::next_combination(d.begin(), d.begin() + k, d.end()); }
template <typename C> J ncomb(C d, std::size_t k, std::size_t skip, int form)
{
   J v, r; std::size_t n = 0;
   for (;;) { if (n++ >= skip) v.add(span(d.begin(), d.begin() + k)); if (n > 1000000) throw std::runtime_error("endless");
      const bool more = more_of(d, k, form);
      if (!more) break; }
   r.add(v); r.add(span(d.begin(), d.end())); return r;
}
template <typename I> J walk(I it, const I& end, int step, int form)
{
   J v; std::size_t n = 0;
   while (it != end) { const typename I::range_type x = *it; v.add(span(x.first, x.second)); if (++n > 1000000) throw std::runtime_error("endless");
      if (step > 1) it += step; else if (form) it++; else ++it; }
   if (!(it == end)) throw std::runtime_error("end is not end");
   return v;
}
}
OP(choose)
{
   J v; for (std::size_t x = 0; x < in[0].size(); ++x) { char b[32]; std::snprintf(b, sizeof b, "%llu", strtk::n_choose_k((unsigned long long)in[0][x][0].n, (unsigned long long)in[0][x][1].n)); v.add(bytes(std::string(b))); }
   J r; r.add(v); return r;
}
OP(fcomb)
{
   const VI v = ivec(in[0]); const std::size_t k = in[1].n, stop = in[2].n; Agree g;
   fcomb(g, v, k, stop); fcomb(g, std::deque<int>(v.begin(), v.end()), k, stop); fcomb(g, std::string(v.begin(), v.end()), k, stop);
   return g.one();
}
OP(fperm)
{
   const VI v = ivec(in[0]); const std::size_t stop = in[1].n; Agree g;
   fperm(g, v, stop); fperm(g, std::list<int>(v.begin(), v.end()), stop); fperm(g, std::string(v.begin(), v.end()), stop);
   return g.one();
}
OP(ncomb)
{
   VI v = ivec(in[0]); std::sort(v.begin(), v.end()); const std::size_t k = in[1].n, skip = in[2].n; Agree g;
   g.put(ncomb(v, k, skip, 0)); g.put(ncomb(v, k, skip, 1)); g.put(ncomb(std::deque<int>(v.begin(), v.end()), k, skip, 0)); g.put(ncomb(std::string(v.begin(), v.end()), k, skip, 1));
   if (skip && std::adjacent_find(v.begin(), v.end()) == v.end()) {   // started from the n-th
      VI d; strtk::nth_combination_sequence(skip, k, v.begin(), v.end(), std::back_inserter(d)); g.put(ncomb(d, k, 0, 0)); }
   return g.one();
}
OP(citer)
{
   const VI v = ivec(in[0]); const std::size_t k = in[1].n; const int step = in[2].n; VI s = v; std::sort(s.begin(), s.end()); Agree g;
   typedef strtk::combination_iterator<VI::iterator> I; typedef strtk::combination_iterator<std::deque<int>::iterator> D; typedef strtk::combination_iterator<char*> C;
   for (int f = 0; f < 2; ++f) {
      { VI w = s; g.put(walk(I(k, w), I(w), step, f)); }
      { VI w = v; g.put(walk(I(k, w, false), I(w), step, f)); }
      { VI w = v; g.put(walk(I(k, w.begin(), w.end(), false), I(w.end()), step, f)); }
      { VI w = s; g.put(walk(I(k, w.begin(), w.end()), I(w.end()), step, f)); }
      { std::deque<int> w(v.begin(), v.end()); g.put(walk(D(k, w, false), D(w), step, f)); }
      { std::string w(v.begin(), v.end()); C it(k, w, false); C end(w); g.put(walk(it, end, step, f)); }
      { std::string w(s.begin(), s.end()); C it(k, w); const std::string& cw = w; C end(cw); g.put(walk(it, end, step, f)); }
   }
   J r; r.add(g.one()); return r;
}
namespace {
void nth_c(J& out, unsigned long long n, std::size_t r, std::size_t k)
{
   Agree a, b;
   { std::vector<std::size_t> v; strtk::nth_combination_sequence(n, r, k, std::back_inserter(v), false); a.put(span(v.begin(), v.end())); }
   { std::vector<std::size_t> v(k, 9999); strtk::nth_combination_sequence(n, r, k, v.begin(), false); a.put(span(v.begin(), v.end())); }
   { std::vector<std::size_t> v; strtk::nth_combination_sequence(n, r, k, std::back_inserter(v)); b.put(span(v.begin(), v.end())); }
   { std::vector<std::size_t> v(r, 9999); strtk::nth_combination_sequence(n, r, k, v.begin(), true); b.put(span(v.begin(), v.end())); }
   { std::list<std::size_t> v; strtk::nth_combination_sequence(n, r, k, std::front_inserter(v), true); b.put(span(v.rbegin(), v.rend())); }
   out.add(a.one()); out.add(b.one());
}
void nth_cs(J& out, const std::size_t n, const VI& v, const std::size_t k)
{
   Agree a, b;
   { VI w; strtk::nth_combination_sequence(n, k, v.begin(), v.end(), std::back_inserter(w), false); a.put(span(w.begin(), w.end())); }
   { VI w(k, -1); strtk::nth_combination_sequence(n, k, v.begin(), v.end(), w.begin(), false); a.put(span(w.begin(), w.end())); }
   { VI w; strtk::nth_combination_sequence(n, k, v.begin(), v.end(), std::back_inserter(w)); b.put(span(w.begin(), w.end())); }
   { const std::string s(v.begin(), v.end()); std::string w; strtk::nth_combination_sequence(n, k, s.data(), s.data() + s.size(), std::back_inserter(w), true); b.put(span(w.begin(), w.end())); }
   out.add(a.one()); out.add(b.one());
}
void nth_p(J& out, const std::size_t n, const VI& v)
{
   Agree a, b;
   { std::vector<std::size_t> w; strtk::nth_permutation_sequence(n, v.size(), std::back_inserter(w)); a.put(span(w.begin(), w.end())); }
   { std::vector<std::size_t> w(v.size(), 77); strtk::nth_permutation_sequence(n, v.size(), w.begin()); a.put(span(w.begin(), w.end())); }
   { VI w; strtk::nth_permutation_sequence(n, v.begin(), v.end(), std::back_inserter(w)); b.put(span(w.begin(), w.end())); }
   { VI w(v.size(), -1); strtk::nth_permutation_sequence(n, v.begin(), v.end(), w.begin()); b.put(span(w.begin(), w.end())); }
   { const std::string s(v.begin(), v.end()); const std::string w = strtk::nth_permutation_sequence(n, s); b.put(span(w.begin(), w.end())); }
   out.add(a.one()); out.add(b.one());
}
}
OP(nthc)  { J out; nth_c(out, in[0].n, in[1].n, in[2].n); return out; }
OP(nthcs) { J out; nth_cs(out, in[0].n, ivec(in[1]), in[2].n); return out; }
OP(nthp)  { J out; nth_p(out, in[0].n, ivec(in[1])); return out; }
OP(bigc)  { J out; const VI v = ivec(in[1]); nth_c(out, undec(in[0]), v.size(), in[2].n); nth_cs(out, undec(in[0]), v, in[2].n); return out; }
OP(bigp)  { J out; nth_p(out, undec(in[0]), ivec(in[1])); return out; }
