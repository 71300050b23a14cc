#include "agree.hpp"
#include "strtk.hpp"
#include <cmath>
using namespace vh;
static J pairJ(bool ok, const J& v) { J j; j.add(ok); j.add(ok ? v : bytes(std::string("K"))); return j; }
template <typename A, typename I> bool direct(A& a, I b, I e) { return a(b, e); }
template <typename T, typename I> bool direct(strtk::hex_to_number_sink<T>& a, I b, I e) { a = std::make_pair(b, e); return a.valid(); }
template <typename T, typename I> bool direct(strtk::base64_to_number_sink<T>& a, I b, I e) { a = std::make_pair(b, e); return a.valid(); }
template <typename I> bool direct(strtk::hex_to_string_sink& a, I b, I e) { a = std::make_pair(b, e); return a.valid(); }
template <typename I> bool direct(strtk::ignore_token& a, I b, I e) { a = std::make_pair(b, e); return true; }
template <typename T, typename I> bool direct(strtk::util::attribute<T>& a, I b, I e) { return strtk::string_to_type_converter(b, e, a); }
static bool plain(const std::string& f) { return !f.empty() && f.find(',') == std::string::npos; }
template <typename A> bool whole(A& a, const std::string& f) { Buf b(f); return direct(a, b.cb(), b.ce()); }
template <typename T> bool whole(strtk::hex_to_number_sink<T>& a, const std::string& f) { T other = T(78); strtk::hex_to_number_sink<T> c(a), d(other); d = a; d = f; if (!(other == T(78))) throw std::runtime_error("assigned sink"); c = d; a = c; return a.valid(); }
template <typename T> bool whole(strtk::base64_to_number_sink<T>& a, const std::string& f) { T other = T(78); strtk::base64_to_number_sink<T> c(a), d(other); d = a; d = f; if (!(other == T(78))) throw std::runtime_error("assigned sink"); c = d; a = c; return a.valid(); }
static bool whole(strtk::hex_to_string_sink& a, const std::string& f) { strtk::hex_to_string_sink c(a); c = f; a = c; return a.valid(); }
static bool whole(strtk::ignore_token& a, const std::string& f) { a = f; return true; }
static const int modes = 6;
// one use of the adaptor; inside a row the values around it must be parsed as well
template <typename A> bool use(int m, A& a, const std::string& f)
{
   Buf b(f);
   switch (m) {
      case 0 : return direct(a, b.cb(), b.ce());
      case 1 : return strtk::string_to_type_converter(b.cb(), b.ce(), a);
      case 2 : return strtk::string_to_type_converter(f, a);
      case 3 : { int x = -7; const std::string t = f + ",42"; Buf tb(t); const bool ok = strtk::parse(tb.cb(), tb.ce(), std::string(","), a, x); if ((x == 42) != ok) throw std::runtime_error("row and adaptor disagree"); return ok; }
      case 5 : return whole(a, f);
      default : { int x = -7; const std::string t = "41," + f; const bool ok = strtk::parse(t, ",", x, a); if (x != 41) throw std::runtime_error("value before the adaptor lost"); return ok; }
   }
}
template <typename T, typename Mk, typename Out> void each(Agree& g, const std::string& f, const T& init, Mk mk, Out out, int first = 0)
{
   for (int m = first; m < modes; ++m) {
      if ((m == 3 || m == 4) && !plain(f)) continue;
      T t(init); auto a = mk(t); const bool ok = use(m, a, f); g.put(pairJ(ok, out(t)));
   }
}
static J txt(const std::string& s) { return bytes(s); }
static J num(const int& v) { return dec((long long)v); }
template <typename T> J be(const T& v) { J j; unsigned long long u = (unsigned long long)v; for (int k = (int)sizeof(T) - 1; k >= 0; --k) j.add((int)((u >> (8 * k)) & 255)); return j; }
template <typename T> void hexn(Agree& g, const std::string& f) { each<T>(g, f, T(77), [](T& t) { return strtk::hex_to_number_sink<T>(t); }, [](const T& t) { return be(t); }); }
template <typename T> void b64n(Agree& g, const std::string& f) { each<T>(g, f, T(77), [](T& t) { return strtk::base64_to_number_sink<T>(t); }, [](const T& t) { return be(t); }); }
template <typename T> void decn(Agree& g, const std::string& f, int n, int m) {
   auto out = [](const T& t) { return dec((long long)std::llround((long double)t * 1000000)); };
   each<T>(g, f, T(77), [=](T& t) { return strtk::decimal_sink<T>(t, n, m); }, out);
   each<T>(g, f, T(77), [=](T& t) { strtk::decimal_sink<T> d(1, 1); d(t).int_size(n).frac_size(m); return d; }, out);
}
template <typename T> void rangen(Agree& g, const std::string& f, int lo, int hi) {
   each<T>(g, f, T(-77), [=](T& t) { return strtk::inrange(t, T(lo) / 4, T(hi) / 4); }, [](const T& t) { return dec((long long)std::llround((long double)t * 4)); });
}
struct Act { std::string seen; int calls; bool flag; Act() : calls(0) {} 
   bool operator()(const unsigned char* b, const unsigned char* e) { ++calls; seen.assign(b, e); return b != e && *b != 'n'; } 
   bool operator()(const unsigned char* b, const unsigned char* e) const { return const_cast<Act*>(this)->operator()(b, e); } };
struct Arr { std::vector<unsigned char> v; };
template <typename T> struct Pt { T v; };
OP(adapt)
{
   const J& ad = in[0]; const std::string k = ad[0].s, f = str(in[1]); Agree g;
   const std::string p = (ad.size() > 1 && ad[1].k == J::ARR) ? str(ad[1]) : std::string();
   const int n = (ad.size() > 1 && ad[1].k == J::INT) ? (int)ad[1].n : 0, m = (ad.size() > 2 && ad[2].k == J::INT) ? (int)ad[2].n : 0;
   const std::string q = (ad.size() > 2 && ad[2].k == J::ARR) ? str(ad[2]) : std::string();
   auto self = [&](const int&) { return bytes(f); };
   if (k == "expect") { each<int>(g, f, 0, [&](int&) { return strtk::expect(p); }, self); each<int>(g, f, 0, [&](int&) { auto e = strtk::expect("zz"); e.set_value(p); return e.ref(); }, self); }
   else if (k == "iexpect") { each<int>(g, f, 0, [&](int&) { return strtk::iexpect(p); }, self); each<int>(g, f, 0, [&](int&) { auto e = strtk::iexpect("zz"); e.set_value(p); return e.ref(); }, self); }
   else if (k == "like") { each<int>(g, f, 0, [&](int&) { return strtk::like(p); }, self); each<int>(g, f, 0, [&](int&) { auto e = strtk::like("zz"); e.set_pattern(p); return e.ref(); }, self); }
   else if (k == "rangei") { each<int>(g, f, -77, [&](int& t) { return strtk::inrange(t, n, m); }, num); each<int>(g, f, -77, [&](int& t) { auto e = strtk::inrange(t, 0, 0); e.set_low_hi(n, m); return e.ref(); }, num); }
   else if (k == "ranges") each<std::string>(g, f, "K", [&](std::string& t) { return strtk::inrange(t, p, q); }, txt);
   else if (k == "ranged") { rangen<double>(g, f, n, m); rangen<float>(g, f, n, m); rangen<long double>(g, f, n, m); }
   else if (k == "trims") { const int md = (int)ad[1].n; each<std::string>(g, f, "K", [&](std::string& t) { return md == 0 ? strtk::trim(q, t) : md == 1 ? strtk::trim_leading(q, t) : strtk::trim_trailing(q, t); }, txt); }
   else if (k == "trimi") { const int md = (int)ad[1].n; each<int>(g, f, -77, [&](int& t) { return md == 0 ? strtk::trim(q, t) : md == 1 ? strtk::trim_leading(q, t) : strtk::trim_trailing(q, t); }, num); }
   else if (k == "lcase") each<std::string>(g, f, "K", [&](std::string& t) { return strtk::as_lcase(t).ref(); }, txt);
   else if (k == "ucase") each<std::string>(g, f, "K", [&](std::string& t) { return strtk::as_ucase(t).ref(); }, txt);
   else if (k == "fill") {
      typedef std::vector<unsigned char> V; const V init(n, '.');
      auto out = [](const V& v) { return bytes(v.begin(), v.end()); };
      static unsigned char dummy;
      each<V>(g, f, init, [&](V& v) { return strtk::fill_array(v.empty() ? &dummy : &v[0], v.size()); }, out);
      each<V>(g, f, init, [&](V& v) { return strtk::fill_array(v.empty() ? (char*)&dummy : (char*)&v[0], v.size()); }, out);
      each<V>(g, f, init, [&](V& v) { auto a = strtk::fill_array(&dummy, 1); a.set(v.empty() ? &dummy : &v[0], v.size()); return a; }, out);
      each<V>(g, f, init, [&](V& v) { auto a = strtk::fill_array(&dummy, 1); a.set_data(v.empty() ? (char*)&dummy : (char*)&v[0]).set_size(v.size()); return a; }, out);
      each<V>(g, f, init, [&](V& v) { auto a = strtk::fill_array(&dummy, 1); a.set(v.empty() ? (char*)&dummy : (char*)&v[0], v.size()); return a.ref(); }, out);
      each<V>(g, f, init, [&](V& v) { auto a = strtk::fill_array(&dummy, 1); a.set_data(v.empty() ? &dummy : &v[0]).set_size(v.size()); return a.ref(); }, out);
      each<std::string>(g, f, std::string(n, '.'), [&](std::string& s) { return strtk::fill_array(s); }, txt);
      each<std::string>(g, f, std::string(n, '.'), [&](std::string& s) { return strtk::fill_array(s, n); }, txt);
      if (n == 2) { struct A2 { unsigned char c[2]; }; A2 z = {{'.', '.'}}; each<A2>(g, f, z, [&](A2& a) { return strtk::fill_array(a.c); }, [](const A2& a) { return bytes(a.c, a.c + 2); }); }
      if (n == 3) { struct A3 { char c[3]; }; A3 z = {{'.', '.', '.'}}; each<A3>(g, f, z, [&](A3& a) { return strtk::fill_array(a.c); }, [](const A3& a) { return bytes(a.c, a.c + 3); }); }
   }
   else if (k == "hex") { if (n == 2) { hexn<short>(g, f); hexn<unsigned short>(g, f); } else if (n == 4) { hexn<int>(g, f); hexn<unsigned int>(g, f); } else { hexn<long>(g, f); hexn<unsigned long>(g, f); hexn<unsigned long long>(g, f); hexn<long long>(g, f); } }
   else if (k == "b64") { if (n == 2) { b64n<short>(g, f); b64n<unsigned short>(g, f); } else if (n == 4) { b64n<int>(g, f); b64n<unsigned int>(g, f); } else { b64n<long>(g, f); b64n<unsigned long>(g, f); b64n<unsigned long long>(g, f); b64n<long long>(g, f); } }
   else if (k == "hexstr") each<std::string>(g, f, "K", [&](std::string& t) { return strtk::hex_to_string_sink(t); }, txt);
   else if (k == "ignore") each<int>(g, f, 0, [&](int&) { return strtk::ignore_token(); }, [](const int&) { return J(); });
   else if (k == "trunc") each<int>(g, f, -77, [&](int& t) { strtk::truncated_int<int> a; a(t); if (n < 0) a.fractional_unknown_size(); else a.fractional_size(n); return a; }, num);
   else if (k == "dec") { decn<double>(g, f, n, m); decn<long double>(g, f, n, m); }
   else if (k == "act") for (int mo = 0; mo < modes; ++mo) {
      if ((mo == 3 || mo == 4) && !plain(f)) continue;
      Act x; const bool ok = use(mo, strtk::util::semantic_action(x).ref(), f);
      if (x.calls != 1) throw std::runtime_error("action did not run exactly once");
      g.put(pairJ(ok, bytes(x.seen)));
   }
   else if (k == "attri") { typedef strtk::util::attribute<int> At; for (int mo = 0; mo < modes; ++mo) { if ((mo == 3 || mo == 4) && !plain(f)) continue; At a(5); const bool ok = use(mo, a, f); if (ok && (!a.initialised() || a.previous() != 5 || a.changed() != (a.value() != 5))) throw std::runtime_error("attribute history"); g.put(pairJ(ok, num(a.value()))); } }
   else if (k == "attrs") { typedef strtk::util::attribute<std::string> At; for (int mo = 0; mo < modes; ++mo) { if ((mo == 3 || mo == 4) && !plain(f)) continue; At a(std::string("q")); const bool ok = use(mo, a, f); if (ok && (!a.initialised() || a.previous() != "q")) throw std::runtime_error("attribute history"); g.put(pairJ(ok, txt(a.value()))); } }
   else if (k == "value") each<int>(g, f, -77, [&](int& t) { return strtk::util::value(t); }, num);
   else throw std::runtime_error("adaptor?");
   return g.get();
}
// rows of four different adaptors
static std::string row(const J& fs) { std::string t; for (std::size_t k = 0; k < fs.size(); ++k) { if (k) t += ','; t += str(fs[k]); } return t; }
OP(pipe)
{
   const J& a = in[1]; const std::string t = row(in[2]); Agree g;
   for (int m = 0; m < 2; ++m) {
      Buf b(t); J r;
      const std::string K = "K"; const J kept = bytes(K);
      if (in[0].n == 0) {
         std::string s = K; int x = -77; unsigned int h = 0xDEADBEEFu; auto e = strtk::expect(str(a[0][1])); auto tr = a[1][1].n == 0 ? strtk::trim(str(a[1][2]), s) : a[1][1].n == 1 ? strtk::trim_leading(str(a[1][2]), s) : strtk::trim_trailing(str(a[1][2]), s);
         auto ir = strtk::inrange(x, (int)a[2][1].n, (int)a[2][2].n); strtk::hex_to_number_sink<unsigned int> hs(h);
         const bool ok = m ? strtk::parse(t, ",", e.ref(), tr.ref(), ir.ref(), hs) : strtk::parse(b.cb(), b.ce(), std::string(","), e, tr, ir, hs);
         r.add(ok); r.add(str(in[2][0]) == str(a[0][1]) ? in[2][0] : kept); r.add(bytes(s)); r.add(x == -77 ? kept : num(x)); r.add(h == 0xDEADBEEFu ? kept : be(h));
      } else if (in[0].n == 1) {
         strtk::util::attribute<int> at(-77); std::string s = K; Act x; auto l = strtk::like(str(a[0][1])); auto lc = strtk::as_lcase(s);
         const bool ok = m ? strtk::parse(t, ",", l.ref(), at, lc.ref(), strtk::util::semantic_action(x).ref()) : strtk::parse(b.cb(), b.ce(), std::string(","), l, at, lc, strtk::util::semantic_action(x).ref());
         r.add(ok); r.add(strtk::match(str(a[0][1]), str(in[2][0])) ? in[2][0] : kept); r.add(at.value() == -77 ? kept : num(at.value())); r.add(bytes(s)); r.add(x.calls == 1 ? bytes(x.seen) : kept);
      } else {
         int i = -77; double d = -77; std::vector<unsigned char> v(a[2][1].n + 1, 'K'); unsigned long h = 0xDEADBEEFul;
         strtk::truncated_int<int> ti; ti(i); if (a[0][1].n >= 0) ti.fractional_size(a[0][1].n); strtk::decimal_sink<double> ds(d, a[1][1].n, a[1][2].n); auto fa = strtk::fill_array(&v[0], a[2][1].n); strtk::base64_to_number_sink<unsigned long> bs(h);
         const bool ok = m ? strtk::parse(t, ",", ti, ds, fa.ref(), bs) : strtk::parse(b.cb(), b.ce(), std::string(","), ti, ds, fa, bs);
         r.add(ok); r.add(i == -77 ? kept : num(i)); r.add(d == -77 ? kept : dec((long long)std::llround(d * 1000000))); 
         bool touched = false; for (std::size_t q = 0; q + 1 < v.size(); ++q) touched = touched || v[q] != 'K';
         r.add(touched ? bytes(v.begin(), v.end() - 1) : kept); r.add(h == 0xDEADBEEFul ? kept : be(h));
      }
      g.put(r);
   }
   return g.get();
}
