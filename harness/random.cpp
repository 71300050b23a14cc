#include "agree.hpp"
#include "strtk.hpp"
using namespace vh;
namespace {
typedef std::vector<int> VI;
VI ivec(const J& j) { VI v; for (std::size_t x = 0; x < j.size(); ++x) v.push_back((int)j[x].n); return v; }
template <typename C> J span(const C& c) { J j; for (typename C::const_iterator x = c.begin(); x != c.end(); ++x) j.add((int)*x); return j; }
// a generator that is told what to draw: draw d of the series is (2 * s[d] + 1) / 2G, 0 beyond the series
struct Told { std::vector<int> s; std::size_t d; int grid; double lo, hi;
   Told() : d(0), grid(12), lo(0.0), hi(1.0) {}
   double min() const { return lo; } double max() const { return hi; } double min() { return lo; } double max() { return hi; }
   double operator()() { if (s.size() <= d) s.push_back(0); return (2 * s[d++] + 1) / (2.0 * grid); }
   bool advance() { s.resize(d); d = 0; while (!s.empty() && s.back() == grid - 1) s.pop_back(); if (s.empty()) return false; ++s.back(); return true; } };
VI source(int n) { VI v; for (int k = 1; k <= n; ++k) v.push_back(k); return v; }
template <typename R> VI pick(const std::string& w, const VI& v, std::size_t k, R& rng, int form)
{
   VI o;
   if (w == "kpick") { if (form) { std::list<int> l(v.begin(), v.end()); if (strtk::select_k_randomly(l.begin(), l.end(), k, std::back_inserter(o), rng) != o.size()) throw std::runtime_error("select_k_randomly result"); }
      else { const std::size_t n = strtk::select_k_randomly(v.begin(), v.end(), k, std::back_inserter(o), rng); if (n != o.size()) throw std::runtime_error("select_k_randomly result"); } }
   else { if (form) { std::list<int> l(v.begin(), v.end()); strtk::select_1_randomly(l.begin(), l.end(), std::back_inserter(o), rng); } else strtk::select_1_randomly(v.begin(), v.end(), std::back_inserter(o), rng); }
   return o;
}
VI draw(const std::string& w, const VI& v, std::size_t k, Told& rng, int form)
{
   VI o;
   if (w == "perm") { if (form) { o.assign(v.size(), -1); strtk::random_permutation(v.begin(), v.end(), rng, o.begin()); } else strtk::random_permutation(v.data(), v.data() + v.size(), rng, std::back_inserter(o)); return o; }
   if (w == "comb") { const bool ok = strtk::random_combination(v.begin(), v.end(), k, rng, std::back_inserter(o)); if (ok != (k <= v.size())) throw std::runtime_error("random_combination result"); return o; }
   return pick(w, v, k, rng, form);
}
J sorted(const std::set<VI>& s) { J j; for (std::set<VI>::const_iterator x = s.begin(); x != s.end(); ++x) j.add(span(*x)); return j; }
template <typename T> struct Cnt { template <typename C> static void add(Agree& g, const C& c) { J j; for (typename C::const_iterator x = c.begin(); x != c.end(); ++x) j.add((long long)*x); g.put(j); } };
template <typename T, typename F> void values(const J& in, F put)
{
   const std::size_t n = in[1].n; const T lo = (T)in[2].n, hi = (T)in[3].n; const std::size_t seed = in[4].n, pre = in[5].n;
   { std::vector<T> v; strtk::generate_random_values<T>(n, lo, hi, v, seed, pre); put(v, lo, hi); }
   { std::deque<T> v; strtk::generate_random_values<T>(n, lo, hi, v, seed, pre); put(v, lo, hi); }
   { std::list<T> v; strtk::generate_random_values<T>(n, lo, hi, v, seed, pre); put(v, lo, hi); }
   { std::vector<T> v; strtk::generate_random_values<T>(n, lo, hi, std::back_inserter(v), seed, pre); put(v, lo, hi); }
   { std::vector<T> v(n); strtk::generate_random_values<T>(n, lo, hi, v.begin(), seed, pre); put(v, lo, hi); }
   { std::vector<T> v(2, lo); strtk::generate_random_values<T>(n, lo, hi, v, seed, pre); if (v.size() != n + 2 || v[0] != lo || v[1] != lo) throw std::runtime_error("existing elements"); v.erase(v.begin(), v.begin() + 2); put(v, lo, hi); }
}
struct PutInt { Agree* g; template <typename C, typename T> void operator()(const C& c, T, T) { Cnt<T>::add(*g, c); } };
struct PutReal { Agree* g; Agree* raw; template <typename C, typename T> void operator()(const C& c, T lo, T hi) { J j, k; for (typename C::const_iterator x = c.begin(); x != c.end(); ++x) {
   J f; f.add(*x >= lo); f.add(*x < hi); int q = (int)std::floor((double)((*x - lo) / (hi - lo) * 4)); f.add(q); j.add(f); char b[64]; std::snprintf(b, sizeof b, "%a", (double)*x); k.add(J::S(b)); } g->put(j); raw->put(k); } };
}
OP(script)
{
   std::set<VI> seen; const VI v = source((int)in[1].n); const std::size_t k = in[2].n; long runs = 0;
   Told t; t.grid = std::max(4, (int)in[1].n); do { t.d = 0; const VI a = draw(in[0].s, v, k, t, 0); const std::size_t used = t.d; seen.insert(a); t.d = 0;
      if (runs % 7 == 0) { const VI b = draw(in[0].s, v, k, t, 1); if (a != b) throw std::runtime_error("the same draws gave different selections"); }
      t.d = used; if (++runs > 3000000) throw std::runtime_error("too many draws"); } while (t.advance());
   J r; r.add(sorted(seen)); return r;
}
OP(outside)   // generators whose range is not the unit interval are refused
{
   const VI v = source((int)in[0].n); Told t; t.lo = in[1].n; t.hi = in[2].n; VI a, b; strtk::random_permutation(v.begin(), v.end(), t, std::back_inserter(a));
   const bool ok = strtk::random_combination(v.begin(), v.end(), 1, t, std::back_inserter(b)); J r; r.add(0); r.add(span(a)); r.add(ok); r.add(span(b)); return r;
}
OP(data)
{
   const std::size_t n = in[0].n, off = in[1].n; const unsigned pre = in[2].n, seed = in[3].n; std::string out[2];
   for (int k = 0; k < 2; ++k) { Buf b(n + off, k ? '\xff' : '\0'); strtk::generate_random_data((unsigned char*)b.b() + off, n, pre, seed); const std::string s = b.s();
      for (std::size_t x = 0; x < off; ++x) if (s[x] != (k ? '\xff' : '\0')) throw std::runtime_error("wrote in front of the buffer"); out[k] = s.substr(off); }
   J r; r.add(bytes(out[0])); r.add(out[0] == out[1]); return r;
}
OP(skip)      // pre-generation skips that many draws
{
   const std::string w = in[0].s; const std::size_t n = in[1].n, pre = in[2].n, seed = in[3].n; J a, b;
   if (w == "data") { std::vector<unsigned> x(n + 1), y(n + pre + 1); strtk::generate_random_data((unsigned char*)x.data(), 4 * n, (unsigned)pre, (unsigned)seed); strtk::generate_random_data((unsigned char*)y.data(), 4 * (n + pre), 0, (unsigned)seed);
      for (std::size_t k = 0; k < n; ++k) a.add((int)x[k]); for (std::size_t k = 0; k < n + pre; ++k) b.add((int)y[k]); }
   else if (w == "vals") { std::vector<unsigned> x, y; strtk::generate_random_values<unsigned>(n, 0u, ~0u, x, seed, pre); strtk::generate_random_values<unsigned>(n + pre, 0u, ~0u, y, seed);
      for (std::size_t k = 0; k < x.size(); ++k) a.add((int)x[k]); for (std::size_t k = 0; k < y.size(); ++k) b.add((int)y[k]); }
   else { strtk::uniform_real_rng x(seed, pre), y(seed), z(y); const double big = 1 << 24;
      for (std::size_t k = 0; k < n; ++k) a.add((int)(x() * big)); for (std::size_t k = 0; k < n + pre; ++k) { const double u = y(); if (!(u >= 0.0 && u < 1.0)) throw std::runtime_error("not in the unit interval"); if (z() != u) throw std::runtime_error("a copy draws differently"); b.add((int)(u * big)); } }
   J r; r.add(a); r.add(b); return r;
}
OP(vals)
{
   const std::string t = in[0].s; Agree g; PutInt p; p.g = &g;
   if (t == "c") values<char>(in, p); else if (t == "uc") values<unsigned char>(in, p); else if (t == "h") values<short>(in, p); else if (t == "uh") values<unsigned short>(in, p);
   else if (t == "i") values<int>(in, p); else if (t == "u") values<unsigned int>(in, p); else if (t == "l") values<long>(in, p); else values<unsigned long>(in, p);
   J r; r.add(g.one()); return r;
}
OP(reals)
{
   const std::string t = in[0].s; Agree g, raw; PutReal p; p.g = &g; p.raw = &raw;
   if (t == "f") values<float>(in, p); else if (t == "d") values<double>(in, p); else values<long double>(in, p);
   raw.one(); J r; r.add(g.one()); return r;
}
OP(perm)
{
   const VI v = ivec(in[0]); const std::size_t seed = in[1].n, pre = in[2].n; Agree g;
   { VI o; strtk::random_permutation(v.begin(), v.end(), std::back_inserter(o), seed, pre); g.put(span(o)); }
   { VI o(v.size(), -1); strtk::random_permutation(v.begin(), v.end(), o.begin(), seed, pre); g.put(span(o)); }
   { VI o; strtk::random_permutation(v, std::back_inserter(o), seed, pre); g.put(span(o)); }
   { VI o; const std::deque<int> d(v.begin(), v.end()); strtk::random_permutation(d, std::back_inserter(o), seed, pre); g.put(span(o)); }
   J r; r.add(g.one()); return r;
}
OP(comb)
{
   const VI v = ivec(in[0]); const std::size_t k = in[1].n, seed = in[2].n, pre = in[3].n; Agree g;
   { VI o; strtk::random_combination(v.begin(), v.end(), k, std::back_inserter(o), seed, pre); g.put(span(o)); }
   { VI o; strtk::random_combination(v, k, std::back_inserter(o), seed, pre); g.put(span(o)); }
   { VI o; const std::deque<int> d(v.begin(), v.end()); strtk::random_combination(d, k, std::back_inserter(o), seed, pre); g.put(span(o)); }
   J r; r.add(g.one()); return r;
}
OP(kpick) { const VI v = ivec(in[0]); Agree g; for (int f = 0; f < 2; ++f) { strtk::uniform_real_rng u(in[2].n); const VI o = pick("kpick", v, in[1].n, u, f); g.put(span(o)); } J r; r.add(g.one()); r.add((long long)g.one().size()); return r; }
OP(onepick) { const VI v = ivec(in[0]); Agree g; for (int f = 0; f < 2; ++f) { strtk::uniform_real_rng u(in[1].n); const VI o = pick("onepick", v, 1, u, f); g.put(span(o)); } J r; r.add(g.one()); return r; }
OP(seeds)
{
   std::set<VI> seen; const std::string w = in[0].s; const VI v = source((int)in[1].n); const std::size_t k = in[2].n;
   for (std::size_t s = 1; s <= (std::size_t)in[3].n; ++s) { VI o;
      if (w == "perm") strtk::random_permutation(v.begin(), v.end(), std::back_inserter(o), s);
      else if (w == "comb") strtk::random_combination(v.begin(), v.end(), k, std::back_inserter(o), s);
      else { strtk::uniform_real_rng u(s); o = pick(w, v, k, u, 0); }
      seen.insert(o); }
   J r; r.add(sorted(seen)); return r;
}
