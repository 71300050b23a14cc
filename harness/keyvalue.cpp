#include "parse_slots.hpp"
#include "strtk.hpp"
#include "bulk.hpp"
using namespace vh;
struct Ci { std::string v; bool operator<(const Ci& o) const { return v < o.v; } };
namespace strtk { namespace keyvalue { namespace details {
template <typename Range> struct keygen<Range, Ci> { static inline Ci transform(const Range& r) { Ci c; for (typename Range::first_type p = r.first; p != r.second; ++p) c.v += (*p >= 'A' && *p <= 'Z') ? (char)(*p + 32) : (char)*p; return c; } };
} } }
namespace {
struct NonEmpty { template <typename R> bool operator()(const R& r) { return r.first != r.second; } };
struct Short { template <typename R> bool operator()(const R& r) { return std::distance(r.first, r.second) <= 4; } };
namespace kv = strtk::keyvalue;
template <typename K> struct Key;
template <> struct Key<std::string> { static std::string of(const std::string& s) { return s; } };
template <> struct Key<unsigned int> { static unsigned int of(const std::string& s) { return (unsigned int)std::strtoul(s.c_str(), 0, 10); } };
template <> struct Key<Ci> { static Ci of(const std::string& s) { Ci c; std::pair<const char*, const char*> r(s.data(), s.data() + s.size()); c = kv::details::keygen<std::pair<const char*, const char*>, Ci>::transform(r); return c; } };
template <typename M, typename O> J play(const O& opts, const J& es, bool ranges)
{
   kv::parser<M> p(opts); Slots w; J out;
   for (std::size_t n = 0; n < es.size(); ++n) {
      const J& e = es[n]; bool ret;
      if (e[0].s == "reg") { const typename M::key_type k = Key<typename M::key_type>::of(str(e[1])); const int s = e[2].n;
         if (s % 3 == 1) ret = p.register_keyvalue(k, w.i[s]); else if (s % 3 == 2) ret = p.register_keyvalue(k, w.s[s]); else ret = p.register_keyvalue(k, w.u[s]); }
      else { const std::string t = str(e[1]); Buf b(t); const bool ign = e[2].n;
         if (ranges) ret = p(std::make_pair((unsigned char*)b.b(), (unsigned char*)b.b() + b.n), ign); else ret = ign ? p(t, true) : p(t);
         if (b.s() != t) throw std::runtime_error("the text was changed"); }
      J x; x.add(ret); x.add((long long)p.failure_count()); x.add(w.get(6)); out.add(x);
   }
   return out;
}
template <typename O> O opt(const J& in) { O o; if (in[1].n) o.pair_block_delimiter = (unsigned char)in[1].n; if (in[2].n) o.pair_delimiter = (unsigned char)in[2].n; return o; }
}
OP(kv)
{
   const std::string kind = in[0].s; Agree g;
   for (int k = 0; k < 2; ++k) {
      if (kind == "uint") { kv::uintkey_map::options o = opt<kv::uintkey_map::options>(in); o.key_count = in[3].n; g.put(play<kv::uintkey_map>(o, in[4], k)); }
      else {
         const kv::options<unsigned char> o = opt<kv::options<unsigned char> >(in);
         if (kind == "str") { if (k) g.put(play<kv::stringkey_map>(o, in[4], k)); else g.put(play<kv::key_map<std::string, std::map<std::string, strtk::util::value, std::greater<std::string> > > >(o, in[4], k)); }
         else if (kind == "ukey") g.put(play<kv::key_map<unsigned int> >(o, in[4], k));
         else g.put(play<kv::key_map<Ci, std::map<Ci, strtk::util::value>, NonEmpty, Short> >(o, in[4], k));
      }
   }
   return g.get();
}
// registrations and then one text: i[5] repeated i[6] times, then i[7]; the last outcome
OP(kv_bulk)
{
   J c, es, e; for (int k = 0; k < 4; ++k) c.add(in[k]); for (std::size_t k = 0; k < in[4].size(); ++k) es.add(in[4][k]);
   e.add(J::S("feed")); e.add(bytes(times(str(in[5]), in[6].n) + str(in[7]))); e.add(1); es.add(e); c.add(es); const J x = op_kv(c); J r; for (std::size_t k = 0; k < x.size(); ++k) r.add(x[k][x[k].size() - 1]); return r;
}
