#include "agree.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
using namespace vh;
namespace {
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64;
template <typename T> struct V { static T from(const J& j) { T t; const std::string s = str(j); std::memcpy(&t, s.data(), sizeof t); return t; } static J to(const T& t) { return bytes(std::string((const char*)&t, sizeof t)); } };
template <> struct V<std::string> { static std::string from(const J& j) { return str(j); } static J to(const std::string& s) { return bytes(s); } };
template <typename C, typename T> struct VC { static C from(const J& j) { C c; for (std::size_t x = 0; x < j.size(); ++x) c.insert(c.end(), V<T>::from(j[x])); return c; } static J to(const C& c) { J j; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) j.add(V<T>::to(*i)); return j; } };
template <typename T> struct V<std::vector<T> > : VC<std::vector<T>, T> {};
template <typename T> struct V<std::deque<T> > : VC<std::deque<T>, T> {};
template <typename T> struct V<std::list<T> > : VC<std::list<T>, T> {};
template <typename T> struct V<std::set<T> > : VC<std::set<T>, T> {};
template <typename T> struct V<std::multiset<T> > : VC<std::multiset<T>, T> {};
template <typename A, typename B> struct V<std::pair<A, B> > { static std::pair<A, B> from(const J& j) { return std::pair<A, B>(V<A>::from(j[0]), V<B>::from(j[1])); } static J to(const std::pair<A, B>& p) { J j; j.add(V<A>::to(p.first)); j.add(V<B>::to(p.second)); return j; } };
struct Rec { u32 a; std::string b; std::vector<u16> c; std::pair<u8, std::string> d;
   strtk_binary_reader_begin() strtk_binary_reader(a) strtk_binary_reader(b) strtk_binary_reader(c) strtk_binary_reader(d) strtk_binary_reader_end()
   strtk_binary_writer_begin() strtk_binary_writer(a) strtk_binary_writer(b) strtk_binary_writer(c) strtk_binary_writer(d) strtk_binary_writer_end() };
template <> struct V<Rec> { static Rec from(const J& j) { Rec r; r.a = V<u32>::from(j[0]); r.b = str(j[1]); r.c = V<std::vector<u16> >::from(j[2]); r.d = V<std::pair<u8, std::string> >::from(j[3]); return r; }
   static J to(const Rec& r) { J j; j.add(V<u32>::to(r.a)); j.add(bytes(r.b)); j.add(V<std::vector<u16> >::to(r.c)); j.add(V<std::pair<u8, std::string> >::to(r.d)); return j; } };
typedef strtk::binary::writer W; typedef strtk::binary::reader R;
struct Ret { bool ok; J v; };
template <typename T> Ret put(W& w, const J& v) { const T t = V<T>::from(v); Ret r; r.ok = w(t); return r; }
template <typename T> Ret get(R& q) { T t = T(); Ret r; r.ok = q(t); if (r.ok) r.v = V<T>::to(t); return r; }
template <typename T> Ret putbe(W& w, const J& v) { Ret r; r.ok = w.native_to_be(V<T>::from(v)); return r; }
template <typename T> Ret getbe(R& q) { T t = T(); Ret r; r.ok = q.be_to_native(t); if (r.ok) r.v = V<T>::to(t); return r; }
template <typename T> Ret putle(W& w, const J& v) { Ret r; r.ok = w.native_to_le(V<T>::from(v)); return r; }
template <typename T> Ret getle(R& q) { T t = T(); Ret r; r.ok = q.le_to_native(t); if (r.ok) r.v = V<T>::to(t); return r; }
template <typename S> Ret putss(W& w, const J& v) { std::string s = str(v); Ret r; S z; if (w(z)) throw std::runtime_error("nothing was written"); S y(s); y.clear(); if (w(y)) throw std::runtime_error("nothing was written"); if (v.size() % 2) { y.set(s); r.ok = w(y); } else r.ok = w(S(s)); return r; }
template <typename S> Ret getss(R& q) { std::string s = "old"; Ret r; S ss; if (q(ss)) throw std::runtime_error("nothing was read"); ss.set(s); ss.clear(); if (q(ss)) throw std::runtime_error("nothing was read"); ss.set(s); r.ok = q(ss); if (r.ok) r.v = bytes(s); return r; }
template <typename L> Ret putraw(W& w, const J& v) { std::vector<u16> d = V<std::vector<u16> >::from(v); Buf b(std::string((const char*)d.data(), d.size() * 2)); const u16* p = (const u16*)b.d; const L n = (L)d.size(); Ret r; r.ok = w(p, n); return r; }
template <typename L> Ret getraw(R& q) { u16* p = 0; L n = 77; Ret r; r.ok = q(p, n); if (r.ok) r.v = V<std::vector<u16> >::to(std::vector<u16>(p, p + n)); delete[] p; return r; }
template <typename L> Ret putfix(W& w, const J& v) { const std::string s = str(v); Buf b(s); const u16* p = (const u16*)b.d; const L n = (L)(s.size() / 2); Ret r; r.ok = w(p, n, false); return r; }
template <typename L> Ret getfix(R& q, std::size_t n0) { Buf b(n0 * 2, 0); u16* p = (u16*)b.d; L n = (L)n0; Ret r; r.ok = q(p, n, false); if (n != (L)n0) throw std::runtime_error("length changed"); if (r.ok) r.v = bytes(b.s()); return r; }
Ret putarr(W& w, const J& v, bool len) { const std::string s = str(len ? v[1] : v); u16 a[3]; std::memcpy(a, s.data(), 6); Ret r; r.ok = len ? w(a, true) : w(a); return r; }
Ret getarr(R& q, bool len) { u16 a[3] = { 0, 0, 0 }; std::size_t n = 0; Ret r; r.ok = (!len || q(n)) && q(a); if (r.ok) { const J d = bytes(std::string((const char*)a, 6)); if (len) { r.v.add(V<std::size_t>::to(n)); r.v.add(d); } else r.v = d; } return r; }
#define TYPES(X) X(u8, u8) X(i8, signed char) X(c, char) X(i16, short) X(u16, u16) X(i32, int) X(u32, u32) X(i64, long long) X(u64, u64) X(f32, float) X(f64, double) X(str, std::string) \
   X(vu16, std::vector<u16>) X(vf64, std::vector<double>) X(vstr, std::vector<std::string>) X(du32, std::deque<u32>) X(dstr, std::deque<std::string>) X(lstr, std::list<std::string>) X(lu8, std::list<u8>) \
   X(su16, std::set<u16>) X(sstr, std::set<std::string>) X(mu8, std::multiset<u8>) X(mstr, std::multiset<std::string>) X(rec, Rec) X(vrec, std::vector<Rec>) X(vvu16, std::vector<std::vector<u16> >)
typedef std::pair<u32, std::string> Pair; typedef std::vector<std::pair<u8, std::string> > VPair;
Ret put(W& w, const std::string& n, const J& v)
{
   #define X(name, T) if (n == #name) return put<T >(w, v);
   TYPES(X) X(pair, Pair) X(vpair, VPair)
   #undef X
   if (n == "b16") return putbe<u16>(w, v); if (n == "b32") return putbe<u32>(w, v); if (n == "b64") return putbe<u64>(w, v);
   if (n == "bi16") return putbe<short>(w, v); if (n == "bi32") return putbe<int>(w, v); if (n == "bi64") return putbe<long long>(w, v);
   if (n == "l16") return putle<u16>(w, v); if (n == "l32") return putle<int>(w, v); if (n == "l64") return putle<u64>(w, v);
   if (n == "sst") return putss<strtk::binary::short_string>(w, v); if (n == "pst") return putss<strtk::binary::pascal_string>(w, v);
   if (n == "raw") return putraw<u32>(w, v); if (n == "raw8") return putraw<u64>(w, v);
   if (n == "fix2") return putfix<u32>(w, v); if (n == "fix4") return putfix<u64>(w, v);
   if (n == "arr") return putarr(w, v, false); if (n == "arrn") return putarr(w, v, true);
   throw std::runtime_error("type " + n);
}
Ret get(R& q, const std::string& n)
{
   #define X(name, T) if (n == #name) return get<T >(q);
   TYPES(X) X(pair, Pair) X(vpair, VPair)
   #undef X
   if (n == "b16") return getbe<u16>(q); if (n == "b32") return getbe<u32>(q); if (n == "b64") return getbe<u64>(q);
   if (n == "bi16") return getbe<short>(q); if (n == "bi32") return getbe<int>(q); if (n == "bi64") return getbe<long long>(q);
   if (n == "l16") return getle<u16>(q); if (n == "l32") return getle<int>(q); if (n == "l64") return getle<u64>(q);
   if (n == "sst") return getss<strtk::binary::short_string>(q); if (n == "pst") return getss<strtk::binary::pascal_string>(q);
   if (n == "raw") return getraw<u32>(q); if (n == "raw8") return getraw<u64>(q);
   if (n == "fix2") return getfix<u32>(q, 2); if (n == "fix4") return getfix<u64>(q, 4);
   if (n == "arr") return getarr(q, false); if (n == "arrn") return getarr(q, true);
   throw std::runtime_error("type " + n);
}
std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), std::istreambuf_iterator<char>()); }
}
OP(binary)
{
   Buf b(in[0].n, (char)in[1].n); J out; const char* path = "binary.tmp"; std::remove(path);
   { std::ofstream o(path, std::ios::binary); }
   const bool wide = b.n % 4 == 0 && in[1].n % 2;
   std::unique_ptr<W> wp(wide ? new W((u32*)b.d, b.n / 4) : new W(b.b(), b.n)); std::unique_ptr<R> rp(wide ? new R((u32*)b.d, b.n / 4) : new R(b.mub(), b.n));
   W& w = *wp; R& q = *rp;
   if (!w != (b.n == 0) || !q != (b.n == 0)) throw std::runtime_error("operator!");
   for (std::size_t n = 0; n < in[2].size(); ++n) {
      const J& e = in[2][n]; const std::string& o = e[0].s; Ret r; r.ok = true; long long ret = -1;
      if (o == "w") r = put(w, e[1].s, e[2]);
      else if (o == "r") r = get(q, e[1].s);
      else if (o == "t") { const std::string t = str(e[1]); const W::padding_mode m = e[3].n ? W::right_padding : W::left_padding; const char pad = (char)e[4].n;
         const bool num = !t.empty() && t.size() < 9 && t.find_first_not_of("0123456789") == std::string::npos && (t.size() == 1 || t[0] != '0');
         if (num && n % 2) r.ok = w(std::atoi(t.c_str()), e[2].n, m, pad); else if (pad == ' ') r.ok = w(t, e[2].n, m); else r.ok = w(t, e[2].n, m, pad); }
      else if (o == "u") { std::string t; r.ok = q(t, (std::size_t)e[1].n); if (r.ok) r.v = bytes(t); }
      else if (o == "wm") w.mark(); else if (o == "rm") q.mark();
      else if (o == "wb") r.ok = w.reset_to_mark(); else if (o == "rb") r.ok = q.reset_to_mark();
      else if (o == "sk") r.ok = q.seek((int)e[1].n); else if (o == "rw") r.ok = q.rewind(e[1].n);
      else if (o == "w0") w.reset(); else if (o == "r0") q.reset();
      else if (o == "wc") { if (n % 2) w.clear(); else w.reset(true); } else if (o == "rc") { if (n % 2) q.clear(); else q.reset(true); }
      else if (o == "fo") { std::ofstream f(path, std::ios::binary); ret = (long long)w(f); }
      else if (o == "fi") { std::ifstream f(path, std::ios::binary); r.ok = q(f, (std::size_t)e[1].n); }
      else if (o == "fq") { std::ifstream f(path, std::ios::binary); r.ok = q(f); }
      else throw std::runtime_error("event");
      if (w.position() != w.amount_written() || w.position_ptr() != b.d + w.position()) throw std::runtime_error("writer position");
      if (q.position() != q.amount_read() || q.position_ptr() != b.d + q.position()) throw std::runtime_error("reader position");
      J x; x.add(ret >= 0 ? J(ret) : J(r.ok)); x.add(r.v); x.add(w.position()); x.add(q.position()); x.add(bytes(b.s())); out.add(x);
   }
   std::remove(path);
   return out;
}
// plain transfers through a file and through memory
namespace {
const char* PF = "pods.tmp";
template <std::size_t N> struct Vals { u8 a; u16 b; u32 c; u64 d; double e; char f; short g; int h; long long i; float j; u8 k; u16 l; };
typedef Vals<0> Vs;
void load(Vs& v, const std::vector<std::string>& s) { std::size_t n = s.size(); void* p[] = { &v.a, &v.b, &v.c, &v.d, &v.e, &v.f, &v.g, &v.h, &v.i, &v.j, &v.k, &v.l }; for (std::size_t x = 0; x < n; ++x) std::memcpy(p[x], s[x].data(), s[x].size()); }
J show(const Vs& v, const std::vector<std::string>& s) { const void* p[] = { &v.a, &v.b, &v.c, &v.d, &v.e, &v.f, &v.g, &v.h, &v.i, &v.j, &v.k, &v.l }; J j; for (std::size_t x = 0; x < s.size(); ++x) j.add(bytes(std::string((const char*)p[x], s[x].size()))); return j; }
J answer(const std::string& d, const J& v, bool w, bool r, bool cut) { J j; j.add(bytes(d)); j.add(v); j.add(w); j.add(r); j.add(cut); return j; }
#define A1 v.a
#define A2 A1, v.b
#define A3 A2, v.c
#define A4 A3, v.d
#define A5 A4, v.e
#define A6 A5, v.f
#define A7 A6, v.g
#define A8 A7, v.h
#define A9 A8, v.i
#define A10 A9, v.j
#define A11 A10, v.k
#define A12 A11, v.l
#define EACH10(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10)
bool fw(std::ofstream& s, const Vs& v, int n) { switch (n) {
   #define X(k) case k: return strtk::fileio::write_pod(s, A##k);
   EACH10(X)
   #undef X
   } return true; }
bool fr(std::ifstream& s, Vs& v, int n) { switch (n) {
   #define X(k) case k: return strtk::fileio::read_pod(s, A##k);
   EACH10(X)
   #undef X
   } return true; }
u8* mw(u8* s, const Vs& v, int n) { switch (n) {
   #define X(k) case k: return strtk::write_pod(s, A##k);
   EACH10(X) X(11) X(12)
   #undef X
   } return s; }
u8* mr(u8* s, Vs& v, int n) { switch (n) {
   #define X(k) case k: return strtk::read_pod(s, A##k);
   EACH10(X) X(11) X(12)
   #undef X
   } return s; }
void chop(const std::string& d) { std::ofstream o(PF, std::ios::binary | std::ios::trunc); o << (d.empty() ? d : d.substr(0, d.size() - 1)); }
template <typename C> J cont(const C& c)
{
   Agree g; const std::size_t n = c.size();
   { bool w, r, k; C d, x; { std::ofstream s(PF, std::ios::binary); w = strtk::fileio::write_pod(s, c); } const std::string raw = slurp(PF);
     { std::ifstream s(PF, std::ios::binary); r = strtk::fileio::read_pod(s, n, d); } chop(raw); { std::ifstream s(PF, std::ios::binary); k = strtk::fileio::read_pod(s, n, x); }
     g.put(answer(raw, V<C>::to(d), w, r, k)); std::remove(PF); }
   { Buf b(n * 2, 0); u8* p = strtk::write_pod(b.mub(), c); const bool w = p == b.ue(); C d; const bool r = strtk::read_pod(b.mub(), n, d) == b.ue(); g.put(answer(b.s(), V<C>::to(d), w, r, n == 0)); }
   return g.one();
}
template <std::size_t N> J arr(const std::string& s)
{
   Agree g; u16 a[N], d[N], x[N]; std::memcpy(a, s.data(), N * 2); std::memset(d, 0, sizeof d); const u16 (&ca)[N] = a;
   bool w, r, k; { std::ofstream o(PF, std::ios::binary); w = strtk::fileio::write_pod(o, ca); } const std::string raw = slurp(PF);
   { std::ifstream i(PF, std::ios::binary); r = strtk::fileio::read_pod(i, d); } chop(raw); { std::ifstream i(PF, std::ios::binary); k = strtk::fileio::read_pod(i, x); }
   J v; for (std::size_t q = 0; q < N; ++q) v.add(V<u16>::to(d[q])); g.put(answer(raw, v, w, r, k)); std::remove(PF);
   Buf b(N * 2, 0); w = strtk::write_pod(b.mub(), a) == b.ue(); std::memset(d, 0, sizeof d); r = strtk::read_pod(b.mub(), d) == b.ue();
   J u; for (std::size_t q = 0; q < N; ++q) u.add(V<u16>::to(d[q])); g.put(answer(b.s(), u, w, r, false)); return g.one();
}
}
OP(pods)
{
   const std::string k = in[0].s; const std::vector<std::string> s = strs(in[1]);
   if (k == "args") {
      Agree g; const int n = (int)s.size(); Vs v, d, x; std::memset(&v, 0, sizeof v); std::memset(&d, 0, sizeof d); load(v, s); std::string all; for (int q = 0; q < n; ++q) all += s[q];
      if (n <= 10) { bool w, r, c; { std::ofstream o(PF, std::ios::binary); w = fw(o, v, n); } const std::string raw = slurp(PF); { std::ifstream i(PF, std::ios::binary); r = fr(i, d, n); } chop(raw); { std::ifstream i(PF, std::ios::binary); c = fr(i, x, n); } g.put(answer(raw, show(d, s), w, r, c)); std::remove(PF); }
      std::memset(&d, 0, sizeof d); Buf b(all.size(), 0); const bool w = mw(b.mub(), v, n) == b.ue(); const bool r = mr(b.mub(), d, n) == b.ue(); g.put(answer(b.s(), show(d, s), w, r, n == 0)); return g.one();
   }
   if (k == "arr") { std::string all; for (std::size_t q = 0; q < s.size(); ++q) all += s[q]; switch (s.size()) { case 1: return arr<1>(all); case 2: return arr<2>(all); case 3: return arr<3>(all); default: return arr<5>(all); } }
   if (k == "seq") return cont(V<std::vector<u16> >::from(in[1]));
   if (k == "list") { if (s.size() % 2) return cont(V<std::list<u16> >::from(in[1])); return cont(V<std::deque<u16> >::from(in[1])); }
   if (k == "set") return cont(V<std::set<u16> >::from(in[1]));
   return cont(V<std::multiset<u16> >::from(in[1]));
}
// one value of many elements
OP(binary_bulk)
{
   const std::string ty = in[0].s; const std::size_t n = in[2].n, cap = in[3].n, h = in[4].n; const bool text = ty == "str" || ty == "sst" || ty == "pst";
   J v; if (text) v = bytes(times(str(in[1]), n)); else for (std::size_t k = 0; k < n; ++k) for (std::size_t x = 0; x < in[1].size(); ++x) v.add(in[1][x]);
   Buf b(cap, (char)170); W w(b.b(), cap); R q(b.mub(), cap); J j;
   Ret r = put(w, ty, v); if (!r.ok) { j.add(0); j.add(w.position() <= cap); return j; }
   const std::size_t e = w.position(); j.add(1); j.add(e); if (e > cap || e < h) return J(-1);
   j.add(bytes(b.s().substr(0, h))); j.add(packed(b.s().substr(h, e - h), n)); { const std::string z = b.s().substr(e); if (z != std::string(z.size(), (char)170)) return J(-2); }
   r = get(q, ty); j.add(r.ok); j.add(q.position()); std::string s; if (text) s = str(r.v); else for (std::size_t k = 0; k < r.v.size(); ++k) s += str(r.v[k]) + "|"; j.add(packed(s, n));
   return j;
}
OP(pods_bulk)
{
   const std::size_t n = in[1].n; J x, v; for (std::size_t k = 0; k < n; ++k) for (std::size_t c = 0; c < in[0].size(); ++c) v.add(in[0][c]);
   J j; for (int k = 0; k < 2; ++k) { J y; y.add(J::S(k ? "list" : "seq")); y.add(v); const J r = op_pods(y); std::string s; for (std::size_t c = 0; c < r[1].size(); ++c) s += str(r[1][c]); J z; z.add(packed(str(r[0]), n)); z.add(packed(s, n)); z.add(r[2]); z.add(r[3]); z.add(r[4]); j.add(z); }
   return j;
}
