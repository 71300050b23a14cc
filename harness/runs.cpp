#include "split_obs.hpp"
#include "strtk.hpp"
typedef unsigned char uc;
typedef std::pair<char*, char*> MR;
static strtk::find_type::type ft(long t) { return (strtk::find_type::type)t; }
static strtk::find_mode::type fm(long m) { return m ? strtk::find_mode::atleast_n : strtk::find_mode::exactly_n; }
static J rg(const MR& r, const char* b, const char* e) { J j; if (r.first == e && r.second == e) return j; j.add((long)(r.first - b)); j.add((long)(r.second - b)); return j; }

OP(runs_find)
{
   Buf b(str(in[0])); Agree g; const std::size_t n = in[3].n;
   g.put(rg(strtk::find_n_consecutive<char*>(n, ft(in[1].n), fm(in[2].n), MR(b.b(), b.e())), b.b(), b.e()));
   { const R r = strtk::find_n_consecutive<const char*>(n, ft(in[1].n), fm(in[2].n), R(b.cb(), b.ce())); g.put(rg(MR((char*)r.first, (char*)r.second), b.cb(), b.ce())); }
   return g.get();
}
OP(runs_match)
{
   Buf b(str(in[0])); Agree g; const std::size_t n = in[3].n;
   g.put(strtk::match_n_consecutive<char*>(n, ft(in[1].n), fm(in[2].n), MR(b.b(), b.e())));
   g.put(strtk::match_n_consecutive<const char*>(n, ft(in[1].n), fm(in[2].n), R(b.cb(), b.ce())));
   return g.get();
}
template <typename C> static std::vector<R> cr(const C& v) { std::vector<R> o; for (std::size_t k = 0; k < v.size(); ++k) o.push_back(R(v[k].first, v[k].second)); return o; }
OP(runs_split)
{
   const std::string s = str(in[0]); Buf b(s); Obs o(s, s.data()); const std::size_t n = in[3].n; strtk::find_type::type t = ft(in[1].n); strtk::find_mode::type m = fm(in[2].n);
   { std::vector<MR> v; o.count(strtk::split_on_consecutive<char*>(n, t, m, b.b(), b.e(), std::back_inserter(v))); o.ranges(cr(v), b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive(n, t, m, b.cb(), b.ce(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive(n, t, m, b.ub(), b.ue(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive(n, t, m, s, std::back_inserter(v))); o.ranges(v); }
   { std::vector<std::string> v; o.count(strtk::split_on_consecutive(n, t, m, s, strtk::range_to_type_back_inserter(v))); o.texts(v); }
   return o.get();
}
OP(runs_split_n)
{
   const std::string s = str(in[0]); Buf b(s); Obs o(s, s.data()); const std::size_t n = in[3].n, k = in[4].n; strtk::find_type::type t = ft(in[1].n); strtk::find_mode::type m = fm(in[2].n);
   { std::vector<MR> v; o.count(strtk::split_on_consecutive_n<char*>(n, k, t, m, b.b(), b.e(), std::back_inserter(v))); o.ranges(cr(v), b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive_n(n, k, t, m, b.cb(), b.ce(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive_n(n, k, t, m, b.ub(), b.ue(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive_n(n, k, t, m, s, std::back_inserter(v))); o.ranges(v); }
   return o.get();
}
struct InSet { bool t[256]; explicit InSet(const std::string& s) { std::memset(t, 0, sizeof t); for (std::size_t k = 0; k < s.size(); ++k) t[(uc)s[k]] = true; } bool operator()(char c) const { return t[(uc)c]; } };
OP(runs_pred)
{
   const std::string s = str(in[0]); Buf b(s); Obs o(s, s.data()); InSet p(str(in[1])); const std::size_t n = in[2].n;
   { std::vector<MR> v; o.count(strtk::split_on_consecutive(n, p, b.b(), b.e(), std::back_inserter(v))); o.ranges(cr(v), b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive(n, p, b.cb(), b.ce(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive(n, p, b.ub(), b.ue(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive(n, p, s, std::back_inserter(v))); o.ranges(v); }
   return o.get();
}
OP(runs_pred_n)
{
   const std::string s = str(in[0]); Buf b(s); Obs o(s, s.data()); InSet p(str(in[1])); const std::size_t n = in[2].n, m = in[3].n;
   { std::vector<MR> v; o.count(strtk::split_on_consecutive(n, m, p, b.b(), b.e(), std::back_inserter(v))); o.ranges(cr(v), b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive_n(n, m, p, b.cb(), b.ce(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive_n(n, m, p, b.ub(), b.ue(), std::back_inserter(v))); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_on_consecutive_n(n, m, p, s, std::back_inserter(v))); o.ranges(v); }
   return o.get();
}
OP(char_class)
{
   char c = (char)in[0][0].n; J j; j.add(strtk::text::is_digit(c)); j.add(strtk::text::is_letter(c)); j.add(strtk::text::is_lowercase_letter(c)); j.add(strtk::text::is_uppercase_letter(c)); j.add(strtk::text::is_letter_or_digit(c)); j.add(strtk::text::is_hex_digit(c));
   J r; r.add(j);
   const std::string s(3, c); J k; k.add(strtk::text::is_all_digits(s)); k.add(strtk::text::is_all_letters(s));
   if (k[0].n != j[0].n || k[1].n != j[1].n) r.add(k);
   return r;
}
static const char* rx(long x) { switch (x) { case 0: return "[0-9]+"; case 1: return "\\(.*?\\)"; default: return "([a-z]+)=([0-9]+)"; } }
OP(regex)
{
   const std::string s = str(in[0]); Obs o(s, s.data()); const char* x = rx(in[1].n); strtk::regex_match_mode::type m = (strtk::regex_match_mode::type)in[2].n; Buf b(s);
   boost::regex e(x);
   { std::vector<SR> v; o.count(strtk::split_regex(std::string(x), s, std::back_inserter(v), m)); o.sranges(v); }
   { std::vector<SR> v; o.count(strtk::split_regex(e, s, std::back_inserter(v), m)); o.sranges(v); }
   { std::vector<R> v; o.count(strtk::split_regex(e, b.cb(), b.ce(), std::back_inserter(v), m)); o.ranges(v, b.cb()); }
   { std::vector<R> v; o.count(strtk::split_regex(std::string(x), b.cb(), b.ce(), std::back_inserter(v), m)); o.ranges(v, b.cb()); }
   { std::vector<std::string> v; o.count(strtk::split_regex(std::string(x), s, strtk::range_to_type_back_inserter(v), m)); o.texts(v); }
   return o.get();
}
OP(regex_n)
{
   const std::string s = str(in[0]); Obs o(s, s.data()); const char* x = rx(in[1].n); strtk::regex_match_mode::type m = (strtk::regex_match_mode::type)in[2].n; const std::size_t n = in[3].n;
   boost::regex e(x);
   { std::vector<SR> v; o.count(strtk::split_regex_n(std::string(x), s, n, std::back_inserter(v), m)); o.sranges(v); }
   { std::vector<SR> v; o.count(strtk::split_regex_n(e, s, n, std::back_inserter(v), m)); o.sranges(v); }
   { std::vector<SR> v; o.count(strtk::split_regex_n(e, s.begin(), s.end(), n, std::back_inserter(v), m)); o.sranges(v); }
   return o.get();
}
// the operation on i[0] repeated i[1] times
static J repeated(const J& in, J (*op)(const J&)) { J c; c.add(bytes(times(str(in[0]), in[1].n))); for (std::size_t k = 2; k < in.size(); ++k) c.add(in[k]); return periodic(op(c), in[0].size(), in[1].n); }
OP(runs_split_bulk) { return repeated(in, op_runs_split); }
OP(runs_pred_bulk) { return repeated(in, op_runs_pred); }
OP(regex_bulk) { return repeated(in, op_regex); }
OP(runs_find_bulk) { J c; c.add(bytes(times(str(in[0]), in[1].n) + str(in[2]))); for (std::size_t k = 3; k < in.size(); ++k) c.add(in[k]); return op_runs_find(c); }
OP(runs_match_bulk) { J c; c.add(bytes(times(str(in[0]), in[1].n))); for (std::size_t k = 2; k < in.size(); ++k) c.add(in[k]); return op_runs_match(c); }
