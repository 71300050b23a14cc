#include "split_obs.hpp"
#include "strtk.hpp"
template <std::size_t N> static void off_with(const std::string& s, const Buf& b, const std::vector<int>& w, bool rot, Obs& o)
{
   int a[N]; std::copy(w.begin(), w.begin() + N, a);
   { strtk::offset_predicate<N> p(a, rot); if (!p || p.size() != N) o.cnt.put(J(-1));
     std::vector<R> v; o.count(strtk::offset_splitter(b.cb(), b.ce(), p, std::back_inserter(v))); o.ranges(v, b.cb());
     p.reset(); std::vector<std::string> u; o.count(strtk::offset_splitter(s, p, strtk::range_to_type_back_inserter(u))); o.texts(u); }
}
#define OFFS(n, ...) if (w.size() == n) { off_with<n>(s, b, w, rot, o); std::vector<R> v; o.count(strtk::offset_splitter(s, strtk::offsets(__VA_ARGS__, rot), std::back_inserter(v))); o.ranges(v); if (!rot) { std::vector<R> u; o.count(strtk::offset_splitter(s, strtk::offsets(__VA_ARGS__), std::back_inserter(u))); o.ranges(u); } }
OP(offset)
{
   const std::string s = str(in[0]); const std::vector<int> w = ints(in[1]); const bool rot = in[2].n; Buf b(s); Obs o(s, s.data());
   OFFS(1, w[0]) OFFS(2, w[0], w[1]) OFFS(3, w[0], w[1], w[2]) OFFS(4, w[0], w[1], w[2], w[3]) OFFS(5, w[0], w[1], w[2], w[3], w[4])
   OFFS(6, w[0], w[1], w[2], w[3], w[4], w[5]) OFFS(7, w[0], w[1], w[2], w[3], w[4], w[5], w[6]) OFFS(8, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7])
   OFFS(9, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8]) OFFS(10, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9])
   OFFS(11, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10]) OFFS(12, w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7], w[8], w[9], w[10], w[11])
   return o.get();
}

template <std::size_t N> static J offhist_with(const J& in)
{
   const std::vector<int> w = ints(in[0]); int a[N]; std::copy(w.begin(), w.begin() + N, a); J out;
   const bool rot = in[1].n; strtk::offset_predicate<N> p(a, rot); std::size_t used = 0;
   for (std::size_t n = 0; n < in[2].size(); ++n) {
      if (in[2][n].size() == 0) { p.reset(); used = 0; out.add(J()); continue; }
      if (!rot && used > N) { out.add(J()); continue; }
      const std::string s = str(in[2][n][0]); Buf b(s); std::vector<R> v; std::size_t c, left = s.size();
      for (std::size_t q = used; left > 0; ++q) { ++used; if (!rot && q >= N) break; const int x = w[q % N]; if (x <= 0) break; left -= std::min<std::size_t>(left, x); }
      J r; c = strtk::offset_splitter(b.cb(), b.ce(), p, std::back_inserter(v)); for (std::size_t k = 0; k < v.size(); ++k) { J q; q.add((long)(v[k].first - b.cb())); q.add((long)(v[k].second - b.cb())); r.add(q); }
      if (c != v.size()) r.add("count"); out.add(r);
   }
   return out;
}
OP(offset_hist)
{
   switch (in[0].size()) { case 1: return offhist_with<1>(in); case 2: return offhist_with<2>(in); case 3: return offhist_with<3>(in); case 4: return offhist_with<4>(in); case 5: return offhist_with<5>(in); default: return offhist_with<6>(in); }
}

static J pairobs(bool ok, const R& a, const R& b, const char* base)
{
   J j; if (!ok) return j;
   J x; x.add((long)(a.first - base)); x.add((long)(a.second - base)); J y; y.add((long)(b.first - base)); y.add((long)(b.second - base)); j.add(x); j.add(y); return j;
}
OP(split_pair)
{
   const std::string s = str(in[0]), d = str(in[1]); Buf b(s); Agree g;
   { R x, y; bool ok = strtk::split_pair(b.cb(), b.ce(), strtk::multiple_char_delimiter_predicate(d), x, y); g.put(pairobs(ok, x, y, b.cb())); }
   { R x, y; bool ok = strtk::split_pair(strtk::multiple_char_delimiter_predicate(d), s, x, y); g.put(pairobs(ok, x, y, s.data())); }
   if (d.size() == 1) { R x, y; bool ok = strtk::split_pair(d[0], s, x, y); g.put(pairobs(ok, x, y, s.data())); }
   return g.get();
}
OP(offset_bulk) { J c; c.add(bytes(times(str(in[0]), in[1].n))); c.add(in[2]); c.add(1); return periodic(op_offset(c), in[0].size(), in[1].n); }
OP(pair_bulk) { J c; c.add(bytes(times(str(in[0]), in[1].n) + str(in[2]))); c.add(in[3]); return op_split_pair(c); }
