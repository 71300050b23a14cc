#include "agree.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
using namespace vh;
typedef unsigned char uc;
OP(hex_enc)
{
   const std::string s = str(in[0]); Buf b(s); Agree g;
   { std::string o("previous"); strtk::convert_bin_to_hex(s, o); g.put(bytes(o)); }
   g.put(bytes(strtk::convert_bin_to_hex(s)));
   { Buf o(2 * s.size(), 'x'); strtk::convert_bin_to_hex(b.cb(), b.ce(), o.b()); g.put(bytes(o.s())); }
   { Buf o(2 * s.size(), 'x'); strtk::convert_bin_to_hex(b.ub(), b.ue(), o.mub()); g.put(bytes(o.s())); }
   { Buf o(2 * s.size(), 'x'); strtk::convert_bin_to_hex(std::make_pair(b.mub(), b.mub() + s.size()), o.mub()); g.put(bytes(o.s())); }
   { Buf o(2 * s.size(), 'x'); strtk::convert_bin_to_hex(std::make_pair(b.ub(), b.ue()), o.mub()); g.put(bytes(o.s())); }
   { Buf o(2 * s.size(), 'x'); strtk::convert_bin_to_hex(std::make_pair(b.cb(), b.ce()), o.b()); g.put(bytes(o.s())); }
   return g.get();
}
static J hd(bool ok, const std::string& o) { J j; j.add(ok); j.add(ok ? bytes(o) : J()); return j; }
OP(hex_dec)
{
   const std::string s = str(in[0]); Buf b(s); Agree g; const std::size_t n = s.size() / 2;
   { std::string o("previous"); bool ok = strtk::convert_hex_to_bin(s, o); g.put(hd(ok, o)); }
   { Buf o(n, 'x'); bool ok = strtk::convert_hex_to_bin(b.cb(), b.ce(), o.b()); g.put(hd(ok, o.s())); }
   { Buf o(n, 'x'); bool ok = strtk::convert_hex_to_bin(b.ub(), b.ue(), o.mub()); g.put(hd(ok, o.s())); }
   { Buf o(n, 'x'); bool ok = strtk::convert_hex_to_bin(std::make_pair(b.mub(), b.mub() + s.size()), o.mub()); g.put(hd(ok, o.s())); }
   { Buf o(n, 'x'); bool ok = strtk::convert_hex_to_bin(std::make_pair(b.ub(), b.ue()), o.mub()); g.put(hd(ok, o.s())); }
   { Buf o(n, 'x'); bool ok = strtk::convert_hex_to_bin(std::make_pair(b.b(), b.e()), o.b()); g.put(hd(ok, o.s())); }
   { Buf o(n, 'x'); bool ok = strtk::convert_hex_to_bin(std::make_pair(b.cb(), b.ce()), o.b()); g.put(hd(ok, o.s())); }
   return g.get();
}
OP(b64_enc)
{
   const std::string s = str(in[0]); Buf b(s); Agree g; const std::size_t n = 4 * ((s.size() + 2) / 3);
   { std::string o("previous"); strtk::convert_bin_to_base64(s, o); g.put(bytes(o)); }
   { Buf o(n, 'x'); std::size_t k = strtk::convert_bin_to_base64(b.cb(), b.ce(), o.b()); g.put(bytes(std::string(o.b(), std::min(k, n)))); g.put(k == n ? bytes(o.s()) : J(k)); }
   { Buf o(n, 'x'); std::size_t k = strtk::convert_bin_to_base64(b.ub(), b.ue(), o.mub()); g.put(k == n ? bytes(o.s()) : J(k)); }
   return g.get();
}
OP(b64_dec)
{
   const std::string s = str(in[0]); Buf b(s); Agree g;
   std::size_t pad = 0; if (s.size() >= 2 && s[s.size() - 2] == '=') pad = 2; else if (s.size() && s[s.size() - 1] == '=') pad = 1;
   const std::size_t n = 3 * (s.size() - pad) / 4;
   { std::string o("previous"); strtk::convert_base64_to_bin(s, o); g.put(bytes(o)); }
   { Buf o(n, 'x'); std::size_t k = strtk::convert_base64_to_bin(b.cb(), b.ce(), o.b()); g.put(k == n ? bytes(o.s()) : J(k)); }
   { Buf o(n, 'x'); std::size_t k = strtk::convert_base64_to_bin(b.ub(), b.ue(), o.mub()); g.put(k == n ? bytes(o.s()) : J(k)); }
   return g.get();
}
OP(codec_bulk)
{
   const std::string k = in[0].s, u = str(in[1]); const std::size_t n = in[2].n; J x, r; x.add(bytes(times(u, n) + str(in[3])));
   r = k == "hex_enc" ? op_hex_enc(x) : k == "hex_dec" ? op_hex_dec(x) : k == "b64_enc" ? op_b64_enc(x) : op_b64_dec(x); if (r.size() != 1) return J(-1);
   if (k == "hex_dec") { J j; if (r[0][0].n == 0) return r[0]; j.add(r[0][0]); j.add(packed(str(r[0][1]), u.size() / 2, n)); return j; }
   return packed(str(r[0]), k == "hex_enc" ? 2 * u.size() : k == "b64_enc" ? u.size() / 3 * 4 : u.size() / 4 * 3, n);
}
