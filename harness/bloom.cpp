#include "agree.hpp"
#include "strtk.hpp"
#include <cmath>
#include <list>
using namespace vh;
namespace {
using strtk::bloom::filter; using strtk::bloom::compressible_filter; using strtk::bloom::parameters;
struct Pod { unsigned int a; unsigned short b; unsigned char c, d; };
parameters params(const J& c)
{
   parameters p;
   // values equal to the documented defaults are left to the defaults
   if (c[0].n != 1) p.minimum_size = c[0].n;
   if (c[1].n) p.maximum_size = c[1].n;
   if (c[2].n != 1) p.minimum_number_of_hashes = c[2].n;
   if (c[3].n != 4000000) p.maximum_number_of_hashes = c[3].n;
   if (c[4].n != 10000) p.projected_element_count = c[4].n;
   if (c[4].n != 10000 || c[5].n != 100) p.false_positive_probability = c[5].n / 1000000.0;
   p.random_seed = (c[6].n == 0) ? 0 : 0x9E3779B97F4A7C15ULL * (unsigned long long)c[6].n;
   return p;
}
// the parameters after a trip through the binary writer and reader
parameters again(const parameters& p)
{
   Buf b(200, 0); strtk::binary::writer w(b.b(), b.n);
   if (!w(p)) throw std::runtime_error("parameters not written");
   parameters q; q.minimum_size = 3; q.maximum_size = 4; q.projected_element_count = 7; q.random_seed = 9; q.false_positive_probability = 0.5; q.minimum_number_of_hashes = 5; q.maximum_number_of_hashes = 6;
   strtk::binary::reader r(b.b(), w.amount_written());
   if (!r(q)) throw std::runtime_error("parameters not read");
   return q;
}
template <typename T> T as(const std::string& s) { T t = T(); std::memcpy(&t, s.data(), sizeof t); return t; }
void put(filter& f, const J& item, int how)
{
   const std::string k = str(item[1]); const std::string& t = item[0].s;
   if (t == "i4") f.insert(as<int>(k)); else if (t == "i8") f.insert(as<unsigned long long>(k)); else if (t == "d8") f.insert(as<double>(k)); else if (t == "pod") f.insert(as<Pod>(k)); else if (t == "c1") f.insert(as<char>(k));
   else { Buf b(k); const std::size_t n = k.size(); switch (how % 3) { case 0: f.insert(k); break; case 1: f.insert(b.ub(), n); break; default: f.insert(b.cb(), n); } }
}
bool has(const filter& f, const J& item, int how)
{
   const std::string k = str(item[1]); const std::string& t = item[0].s;
   if (t == "i4") return f.contains(as<int>(k)); if (t == "i8") return f.contains(as<unsigned long long>(k)); if (t == "d8") return f.contains(as<double>(k)); if (t == "pod") return f.contains(as<Pod>(k)); if (t == "c1") return f.contains(as<char>(k));
   Buf b(k); const std::size_t n = k.size(); switch (how % 3) { case 0: return f.contains(k); case 1: return f.contains(b.ub(), n); default: return f.contains(b.cb(), n); }
}
J bits(const filter& f) { J l; const std::size_t n = f.size(); const unsigned char* t = f.table(); for (std::size_t b = 0; b < (n + 7) / 8 * 8; ++b) if (t[b / 8] & (1u << (b % 8))) l.add((int)b); return l; }
// range functions take one element type, the items as strings of their bytes
struct Range { std::vector<std::string> v; bool all; };
J view(filter* f, const J& items, int how, const std::vector<std::string>& keys, bool allstr)
{
   J v;
   const bool ok = f && !!*f;
   if (!ok) { v.add(0); v.add(0); v.add(f ? (int)f->element_count() : 0); v.add(0); v.add(J()); v.add(J()); v.add(0); v.add(0); return v; }
   v.add(1); v.add(f->size()); v.add(f->element_count()); v.add(f->hash_count()); v.add(bits(*f));
   J l; int fa = (int)items.size() + 1, fn = fa; for (std::size_t x = 0; x < items.size(); ++x) { const bool h = has(*f, items[x], how + x); l.add(h); if (!h && fa > (int)items.size()) fa = x + 1; if (h && fn > (int)items.size()) fn = x + 1; }
   v.add(l);
   if (allstr) {
      const filter& c = *f;
      if (how % 2) { v.add((int)(c.contains_all(keys.begin(), keys.end()) - keys.begin()) + 1); v.add((int)(c.contains_none(keys.begin(), keys.end()) - keys.begin()) + 1); }
      else { std::list<std::string> k(keys.begin(), keys.end()); v.add((int)std::distance(k.begin(), c.contains_all(k.begin(), k.end())) + 1); v.add((int)std::distance(k.begin(), c.contains_none(k.begin(), k.end())) + 1); }
   } else { v.add(fa); v.add(fn); }
   return v;
}
long long recovered(filter* f)
{
   if (!f || !*f) return 0;
   const double k = f->hash_count(), p = f->effective_fpp();
   if (!(p >= 0.0 && p <= 1.0)) return -1;
   return (long long)std::floor(-std::log(1.0 - std::pow(p, 1.0 / k)) * f->size() / k + 0.5);
}
}
OP(bloom)
{
   const J& cs = in[0]; const J& items = in[1]; const J& es = in[2]; const std::string path = "bloom.tmp";
   std::vector<parameters> ps; J ms, steps;
   for (std::size_t c = 0; c < cs.size(); ++c) {
      parameters p = again(params(cs[c])); J m;
      const bool ok = p.compute_optimal_parameters();
      if (ok == !p) throw std::runtime_error("validity of the parameters");
      ps.push_back(p);
      m.add(ok);
      if (ok) {
         filter one(p); m.add(one.size()); m.add(one.hash_count()); J fps;
         for (std::size_t x = 0; x < items.size(); ++x) { filter g(p); put(g, items[x], x); fps.add(bits(g)); }
         m.add(fps);
      } else { m.add(0); m.add(0); m.add(J()); }
      ms.add(m);
   }
   std::vector<std::string> keys; bool allstr = true; for (std::size_t x = 0; x < items.size(); ++x) { keys.push_back(str(items[x][1])); allstr = allstr && items[x][0].s == "str"; }
   std::unique_ptr<filter> s[3]; bool comp[3] = { false, false, false };
   for (std::size_t n = 0; n < es.size(); ++n) {
      const J& e = es[n]; const std::string& w = e[0].s; int ret = 1;
      #define AT(k) s[e[k].n - 1]
      if (w == "new") { comp[e[1].n - 1] = e[3].n; if (e[3].n) AT(1).reset(new compressible_filter(ps[e[2].n - 1])); else AT(1).reset(new filter(ps[e[2].n - 1])); }
      else if (w == "def") { comp[e[1].n - 1] = false; AT(1).reset(new filter()); }
      else if (w == "ins") put(*AT(1), items[e[2].n - 1], e[3].n);
      else if (w == "rng") { std::vector<std::string> v; for (std::size_t x = 0; x < e[2].size(); ++x) v.push_back(keys[e[2][x].n - 1]); if (n % 2) AT(1)->insert(v.begin(), v.end()); else { std::list<std::string> l(v.begin(), v.end()); AT(1)->insert(l.begin(), l.end()); } }
      else if (w == "cpy") {
         if (!AT(1)) { AT(2).reset(); comp[e[2].n - 1] = false; }
         else if (comp[e[1].n - 1] && n % 2) { std::unique_ptr<filter> t(new compressible_filter(static_cast<compressible_filter&>(*AT(1)))); AT(2).swap(t); comp[e[2].n - 1] = true; }
         else { std::unique_ptr<filter> t(new filter(*AT(1))); AT(2).swap(t); comp[e[2].n - 1] = false; }
      }
      else if (w == "asg") { if (!AT(1)) AT(1).reset(new filter()); if (!AT(2)) AT(2).reset(new filter());
         if (comp[e[1].n - 1] && comp[e[2].n - 1]) static_cast<compressible_filter&>(*AT(2)) = static_cast<compressible_filter&>(*AT(1)); else *AT(2) = *AT(1); }
      else if (w == "and") { if (AT(1) && AT(2)) *AT(1) &= *AT(2); }
      else if (w == "or") { if (AT(1) && AT(2)) *AT(1) |= *AT(2); }
      else if (w == "xor") { if (AT(1) && AT(2)) *AT(1) ^= *AT(2); }
      else if (w == "bin") { std::unique_ptr<filter> t(new filter(e[1].s == "and" ? (*AT(2) & *AT(3)) : e[1].s == "or" ? (*AT(2) | *AT(3)) : (*AT(2) ^ *AT(3)))); AT(4).swap(t); comp[e[4].n - 1] = false; }
      else if (w == "clr") { if (AT(1)) AT(1)->clear(); }
      else if (w == "zip") {
         if (!comp[e[1].n - 1]) { std::unique_ptr<filter> t(new compressible_filter(ps[0])); *t = *AT(1); AT(1).swap(t); comp[e[1].n - 1] = true; }
         ret = static_cast<compressible_filter&>(*AT(1)).compress(e[2].n / 10.0);
      }
      else if (w == "sav" || w == "cut") {
         std::remove(path.c_str());
         ret = AT(1) && AT(1)->write_to_file(path);
         if (ret && w == "cut") { std::string d; { std::ifstream i(path.c_str(), std::ios::binary); d.assign(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); } d.resize(d.size() * e[3].n / 100); std::ofstream o(path.c_str(), std::ios::binary | std::ios::trunc); o << d; }
         if (ret) { if (!AT(2)) AT(2).reset(new filter()); ret = AT(2)->read_from_file(path); }
         std::remove(path.c_str());
      }
      else if (w == "mis") { if (!AT(1)) AT(1).reset(new filter()); ret = AT(1)->read_from_file("no-such-file") || (!!*AT(1) && AT(1)->write_to_file("no-such-dir/bloom")); }
      else throw std::runtime_error("event");
      J st, vs, eq, fp;
      for (int k = 0; k < 3; ++k) { vs.add(view(s[k].get(), items, (int)n + k, keys, allstr)); fp.add(recovered(s[k].get())); }
      for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) {
         const bool va = s[a] && !!*s[a], vb = s[b] && !!*s[b];
         if (!s[a] || !s[b]) { eq.add(va == vb); continue; }
         const bool q = *s[a] == *s[b]; if (q == (*s[a] != *s[b])) throw std::runtime_error("== and != agree"); eq.add(q);
      }
      st.add(ret); st.add(vs); st.add(eq); st.add(fp); steps.add(st);
   }
   J r; r.add(ms); r.add(steps); return r;
}
OP(many)
{
   parameters p = params(in[0]); if (!p.compute_optimal_parameters()) { J r; for (int k = 0; k < 6; ++k) r.add(0); return r; }
   if (in[0][4].n == 10000 && in[0][5].n == 100) {   // the documented defaults
      parameters e; e.minimum_size = 1; e.minimum_number_of_hashes = 1; e.projected_element_count = 10000; e.false_positive_probability = 1.0 / 10000; e.random_seed = 0xA5A5A5A55A5A5A5AULL; e.compute_optimal_parameters();
      parameters d; d.compute_optimal_parameters(); filter x(e), y(d);
      if (x.size() != y.size() || x.hash_count() != y.hash_count() || x.size() != p.optimal_parameters.table_size || x != y) throw std::runtime_error("default parameters");
      x.insert(std::string("key")); y.insert(std::string("key")); if (x != y) throw std::runtime_error("default parameters");
   }
   filter f(p); const unsigned n = in[0][4].n, salt = in[1].n; unsigned missing = 0, wrong = 0; J r;
   std::vector<std::string> keys, other;
   unsigned long long x = salt * 2654435761ULL + 88172645463325252ULL;
   for (unsigned k = 0; k < n + 1000; ++k) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; char b[40]; std::snprintf(b, sizeof b, "%llx-%u", x, k); (k < n ? keys : other).push_back(b); }
   f.insert(keys.begin(), keys.end());
   for (unsigned k = 0; k < n; ++k) missing += !f.contains(keys[k]);
   for (unsigned k = 0; k < other.size(); ++k) wrong += f.contains(other[k]);
   r.add(1); r.add(f.size()); r.add(f.hash_count()); r.add(f.element_count()); r.add(missing); r.add(wrong); return r;
}
