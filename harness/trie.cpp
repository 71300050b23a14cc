#include "agree.hpp"
#include "strtk.hpp"
using namespace vh;
// one implementation of the operations per key type
struct StrOps { typedef strtk::prefix_trie<std::size_t>::std_string T; static bool z(const std::string& k) { return k.find('\0') == std::string::npos; }
   static void ins(T& t, const std::string& k, std::size_t v, int w) { if (w % 3 == 0) strtk::trie::insert(t, k, v); else if (w % 3 == 1 && z(k)) strtk::trie::insert(t, k.c_str(), v); else t.insert(k.begin(), k.end(), v); }
   static bool find(T& t, const std::string& k, std::size_t& v, int w) { if (w % 3 == 0) return strtk::trie::find(t, k, v); else if (w % 3 == 1 && z(k)) return strtk::trie::find(t, k.c_str(), v); const T& c = t; return c.find(k.begin(), k.end(), v); }
   static bool pre(T& t, const std::string& k, int w) { if (w % 3 == 0) return strtk::trie::find_prefix(t, k); else if (w % 3 == 1 && z(k)) return strtk::trie::find_prefix(t, k.c_str()); const T& c = t; return c.find_prefix(k.begin(), k.end()); } };
struct PtrOps { typedef strtk::prefix_trie<std::size_t>::const_char_ptr T;
   static void ins(T& t, const std::string& k, std::size_t v, int) { Buf b(k); t.insert(b.cb(), b.ce(), v); }
   static bool find(T& t, const std::string& k, std::size_t& v, int) { Buf b(k); return t.find(b.cb(), b.ce(), v); }
   static bool pre(T& t, const std::string& k, int) { Buf b(k); return t.find_prefix(b.cb(), b.ce()); } };
struct UPtrOps { typedef strtk::prefix_trie<std::size_t>::uchar_ptr T;
   static void ins(T& t, const std::string& k, std::size_t v, int) { Buf b(k); t.insert(b.mub(), b.mub() + b.n, v); }
   static bool find(T& t, const std::string& k, std::size_t& v, int) { Buf b(k); return t.find(b.ub(), b.ue(), v); }
   static bool pre(T& t, const std::string& k, int) { Buf b(k); return t.find_prefix(b.mub(), b.mub() + b.n); } };
struct WideOps { typedef strtk::trie::prefix<unsigned int*, std::string> T;
   static std::vector<unsigned int> w(const std::string& k) { std::vector<unsigned int> v; for (std::size_t x = 0; x < k.size(); ++x) v.push_back((unsigned char)k[x] * 100003u); v.push_back(0); v.pop_back(); return v; }
   static void ins(T& t, const std::string& k, std::size_t v, int) { std::vector<unsigned int> a(w(k)); t.insert(a.data(), a.data() + a.size(), std::to_string(v)); }
   static bool find(T& t, const std::string& k, std::size_t& v, int) { std::vector<unsigned int> a(w(k)); std::string s = "77"; const bool r = t.find(a.data(), a.data() + a.size(), s); v = std::stoul(s); return r; }
   static bool pre(T& t, const std::string& k, int) { std::vector<unsigned int> a(w(k)); return t.find_prefix(a.data(), a.data() + a.size()); } };
template <typename O> J play(const J& in)
{
   typedef typename O::T T; std::unique_ptr<T> t[2]; J out; int w = 0;
   t[0].reset(new T()); t[1].reset(new T());
   for (std::size_t n = 0; n < in[0].size(); ++n) {
      const J& e = in[0][n];
      if (e[0].s == "ins") O::ins(*t[e[1].n - 1], str(e[2]), e[3].n, w++);
      else if (e[0].s == "copy") { if (n % 2) *t[e[2].n - 1] = *t[e[1].n - 1]; else t[e[2].n - 1].reset(new T(*t[e[1].n - 1])); }
      else t[e[1].n - 1].reset(new T());
      J see;
      for (int s = 0; s < 2; ++s) { J l; for (std::size_t k = 0; k < in[1].size(); ++k) { const std::string p = str(in[1][k]); std::size_t v = 77; const bool f = O::find(*t[s], p, v, w++); if (!f && v != 77) throw std::runtime_error("value changed without a find"); J x; x.add(f); x.add(f ? (int)v : 0); x.add(O::pre(*t[s], p, w++)); l.add(x); } see.add(l); }
      out.add(see);
   }
   return out;
}
OP(trie) { Agree g; g.put(play<StrOps>(in)); g.put(play<PtrOps>(in)); g.put(play<UPtrOps>(in)); g.put(play<WideOps>(in)); return g.one(); }
