#include "split_obs.hpp"
#include <deque>
#include <list>
#include "bulk.hpp"
#include "strtk.hpp"
typedef strtk::std_string::tokenizer<>::type ST; typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type MT;
static void shown(std::ostream& o, const ST::iterator& i) { o << i; }
static void shown(std::ostream& o, const MT::iterator& i) { o << i; }
template <typename I> static void shown(std::ostream& o, const I& i) { o << i.as_string(); }
struct Fn2 { std::vector<R>* v; void operator()(const R& r) { v->push_back(r); } };

template <typename P> static void split_with(const P& p, const std::string& s, const Buf& b, std::size_t opt, Obs& o)
{
   { std::vector<R> v; o.count(strtk::split(p, b.cb(), b.ce(), std::back_inserter(v), opt)); o.ranges(v, b.cb()); }
   { std::list<R> v; o.count(strtk::split(p, s, std::back_inserter(v), opt)); o.ranges(v); }
   { std::vector<R> v; R r(b.cb(), b.ce()); o.count(strtk::split(p, r, std::back_inserter(v), opt)); o.ranges(v, b.cb()); }
   { std::vector<std::string> v; o.count(strtk::split(p, s, strtk::range_to_type_back_inserter(v), opt)); o.texts(v); }
   { std::vector<SR> v; o.count(strtk::split(p, s.begin(), s.end(), std::back_inserter(v), opt)); o.sranges(v); }
}

OP(split)
{
   const std::string s = str(in[0]), d = str(in[1]); const std::size_t opt = in[2].n; Buf b(s);
   Obs o(s, s.data());
   split_with(strtk::multiple_char_delimiter_predicate(d), s, b, opt, o);
   split_with(strtk::multiple_char_delimiter_predicate(d.begin(), d.end()), s, b, opt, o);
   { strtk::multiple_delimiter_predicate<char> p(d.data(), d.data() + d.size()); split_with(p, s, b, opt, o); }
   { strtk::multiple_delimiter_predicate<char> p(d.begin(), d.end()); split_with(p, s, b, opt, o); }
   { strtk::multiple_delimiter_predicate<char> p(d.data(), d.size()); split_with(p, s, b, opt, o); }
   { std::vector<R> v; o.count(strtk::split(d, s, std::back_inserter(v), opt)); o.ranges(v); }
   { std::deque<std::string> v; o.count(strtk::split(d, s, strtk::range_to_type_back_inserter(v), opt)); o.texts(v); }
   { std::list<R> v; o.count(strtk::split(d, s, v, opt)); o.ranges(v); }
   { std::deque<R> v; o.count(strtk::split(d, s, v, opt)); o.ranges(v); }
   { std::vector<R> v; R r(b.cb(), b.ce()); o.count(strtk::split<strtk::multiple_char_delimiter_predicate>(d, r, std::back_inserter(v), opt)); o.ranges(v, b.cb()); }
   if (d.find('\0') == std::string::npos) {
      { std::vector<R> v; o.count(strtk::split(d.c_str(), s, std::back_inserter(v), opt)); o.ranges(v); }
      { std::vector<R> v; o.count(strtk::split(d.c_str(), s, v, opt)); o.ranges(v); }
      { std::list<std::string> v; o.count(strtk::split(d.c_str(), s, strtk::range_to_type_back_inserter(v), opt)); o.texts(v); }
      { std::vector<R> v; R r(b.cb(), b.ce()); o.count(strtk::split<strtk::multiple_char_delimiter_predicate>(d.c_str(), r, std::back_inserter(v), opt)); o.ranges(v, b.cb()); }
      if (opt == 0) {
         std::vector<R> v; Fn2 f; f.v = &v; o.count(strtk::for_each_token(s, d.c_str(), f)); o.ranges(v);
      }
   }
   if (opt == 0) { std::vector<R> v; Fn2 f; f.v = &v; o.count(strtk::for_each_token(s, d, f)); o.ranges(v); }
   if (d.size() == 1) {
      split_with(strtk::single_delimiter_predicate<char>(d[0]), s, b, opt, o);
      { std::vector<R> v; o.count(strtk::split(d[0], s, std::back_inserter(v), opt)); o.ranges(v); }
      { std::vector<std::string> v; o.count(strtk::split(d[0], s, strtk::range_to_type_back_inserter(v), opt)); o.texts(v); }
   }
   // integral sequences: the scanner is generic in the element type
   {
      std::vector<int> iv, dv; for (std::size_t k = 0; k < s.size(); ++k) iv.push_back((unsigned char)s[k] * 1000 - 77); for (std::size_t k = 0; k < d.size(); ++k) dv.push_back((unsigned char)d[k] * 1000 - 77);
      typedef std::vector<int>::const_iterator It; typedef std::pair<It, It> P; std::vector<P> v; const std::vector<int>& c = iv;
      strtk::multiple_delimiter_predicate<int> p(dv.data(), dv.size());
      o.count(strtk::split(p, c.begin(), c.end(), std::back_inserter(v), opt));
      J j; for (std::size_t k = 0; k < v.size(); ++k) { J q; q.add((long)(v[k].first - c.begin())); q.add((long)(v[k].second - c.begin())); j.add(q); } o.off.put(j);
   }
   return o.get();
}

template <typename P> static void splitn_with(const P& p, const std::string& s, const Buf& b, std::size_t n, std::size_t opt, Obs& o)
{
   { std::vector<R> v; o.count(strtk::split_n(p, b.cb(), b.ce(), n, std::back_inserter(v), opt)); o.ranges(v, b.cb()); }
   { std::list<R> v; o.count(strtk::split_n(p, s, n, std::back_inserter(v), opt)); o.ranges(v); }
   { std::vector<SR> v; o.count(strtk::split_n(p, s.begin(), s.end(), n, std::back_inserter(v), opt)); o.sranges(v); }
}
OP(split_n)
{
   const std::string s = str(in[0]), d = str(in[1]); const std::size_t opt = in[2].n, n = in[3].n; Buf b(s);
   Obs o(s, s.data());
   splitn_with(strtk::multiple_char_delimiter_predicate(d), s, b, n, opt, o);
   { strtk::multiple_delimiter_predicate<char> p(d.data(), d.size()); splitn_with(p, s, b, n, opt, o); }
   { std::vector<R> v; o.count(strtk::split_n(d, s, n, std::back_inserter(v), opt)); o.ranges(v); }
   { std::deque<std::string> v; o.count(strtk::split_n(d, s, n, strtk::range_to_type_back_inserter(v), opt)); o.texts(v); }
   { std::vector<R> v; o.count(strtk::split_n(d, b.cb(), b.ce(), n, std::back_inserter(v), opt)); o.ranges(v, b.cb()); }
   if (d.find('\0') == std::string::npos) { std::vector<R> v; o.count(strtk::split_n(d.c_str(), s, n, std::back_inserter(v), opt)); o.ranges(v); }
   if (d.size() == 1) {
      splitn_with(strtk::single_delimiter_predicate<char>(d[0]), s, b, n, opt, o);
      { std::vector<R> v; o.count(strtk::split_n(d[0], s, n, std::back_inserter(v), opt)); o.ranges(v); }
   }
   return o.get();
}

template <typename P> static void tok_with(const P& p, const std::string& s, const Buf& b, std::size_t opt, Obs& o)
{
   typedef typename strtk::std_string::tokenizer<P>::type T;
   {
      T t(b.cb(), b.ce(), p, opt); std::vector<R> v; std::size_t n = 0;
      for (typename T::iterator i = t.begin(); i != t.end() && n <= s.size() + 2; ++i, ++n) v.push_back(*i);
      o.ranges(v, b.cb()); o.count(n);
   }
   {
      T t(s, p, opt); std::vector<std::string> v; std::size_t n = 0; typename T::iterator i = t.begin(), e = t.end();
      while (!(i == e) && n <= s.size() + 2) { std::string a = i.as_string(); R r = *(i++); if (a != std::string(r.first, r.second)) a += "#as_string"; v.push_back(a); ++n; }
      o.texts(v); o.count(n);
   }
   {
      // reuse: assign another text first, then the real one; stepping with += and copies of iterators
      const std::string other = "x|y,z"; T t(other, p, opt); t.assign(b.cb(), b.ce()); std::vector<R> v; std::size_t n = 0;
      typename T::iterator i = t.begin(); T t2 = t; t2 = t;
      while (i != t2.end() && n <= s.size() + 2) { typename T::iterator c = i; if (c.remaining() != std::string((*i).first, b.ce())) n += 1000; v.push_back(*c); c += 1; i = c; ++n; }
      o.ranges(v, b.cb()); o.count(n);
   }
   {
      const std::string other = "qq"; T t(other, p, opt); t.assign(s); std::vector<R> v; std::size_t n = 0;
      for (typename T::iterator i = t.begin(); i != t.end() && n <= s.size() + 2; i++, ++n) v.push_back(*i);
      o.ranges(v); o.count(n);
   }
   {
      const std::string other = "q q,q"; T t(other, p, opt); std::vector<R> v; std::size_t n = strtk::for_each_token(s, t, [&](const R& r){ v.push_back(r); }); o.ranges(v); o.count(n);
   }
   { std::ostringstream a; T t(s, p, opt); std::size_t n = 0; typename T::iterator i = t.begin(); for (; i != t.end() && n <= s.size() + 2; ++i, ++n) { R r = *i; const R c = *i; std::ostringstream x, y; shown(x, i); y << r << c; const std::string w(r.first, r.second); if (x.str() != w || y.str() != w + w) throw std::runtime_error("printed"); } o.count(n); }
   // jump: k-th token reached by += equals the k-th token of a plain walk
   {
      T t(s, p, opt); std::vector<R> v; std::size_t n = 0;
      for (;; ++n) { if (n > s.size() + 2) break; typename T::iterator i = t.begin(); i += (int)n; if (i == t.end()) break; v.push_back(*i); }
      o.ranges(v); o.count(n);
   }
}
OP(tokenizer)
{
   const std::string s = str(in[0]), d = str(in[1]); const std::size_t opt = in[2].n; Buf b(s);
   Obs o(s, s.data());
   tok_with(strtk::multiple_char_delimiter_predicate(d), s, b, opt, o);
   { strtk::multiple_delimiter_predicate<char> p(d.data(), d.size()); tok_with(p, s, b, opt, o); }
   if (d.size() == 1) { tok_with(strtk::single_delimiter_predicate<char>(d[0]), s, b, opt, o); }
   return o.get();
}

// two tokenizers and two of their iterators through a history of assignments and copies
template <typename P> static void tokhist_with(const P& p, const J& in, Agree& g)
{
   typedef typename strtk::std_string::tokenizer<P>::type T; typedef typename T::iterator I;
   std::vector<std::string> x; for (std::size_t k = 0; k < in[2].size(); ++k) x.push_back(str(in[2][k]));
   T t[2] = { T(x[0], p, (strtk::tokenize_options::type)in[1][0].n), T(x[0], p, (strtk::tokenize_options::type)in[1][1].n) };
   I it[2] = { t[0].begin(), t[1].begin() }; std::size_t tx[2] = { 0, 0 }, ix[2] = { 0, 0 }; std::vector<T> keep; J out;
   for (std::size_t n = 0; n < in[3].size(); ++n) {
      const J& e = in[3][n]; const int w = e[1].n - 1; J r;
      switch (e[0].n) {
         case 1 : tx[w] = e[2].n - 1; if (n % 2) t[w].assign(x[tx[w]]); else t[w].assign(x[tx[w]].data(), x[tx[w]].data() + x[tx[w]].size()); break;
         case 2 : { T& me = t[w]; me = me; T mid(t[1 - w]); t[w] = mid; tx[w] = tx[1 - w]; } break;
         case 3 : it[w] = t[e[2].n - 1].begin(); ix[w] = tx[e[2].n - 1]; break;
         case 4 : if (n % 2) it[w] += e[2].n; else for (int q = 0; q < e[2].n; ++q) { if (q % 2) it[w]++; else ++it[w]; } break;
         case 5 : { I c(it[1 - w]); it[w] = c; I& me = it[w]; me = me; ix[w] = ix[1 - w]; } break;
         case 6 : { std::size_t c = 0; const char* b = x[tx[w]].data(); for (I i = t[w].begin(); i != t[w].end() && c < x[tx[w]].size() + 3; ++i, ++c) { J q; q.add((long)((*i).first - b)); q.add((long)((*i).second - b)); r.add(q); } } break;
         case 7 : { const std::string& s = x[ix[w]]; const char* b = s.data(); I e2(b + s.size(), b + s.size(), p, strtk::tokenize_options::default_mode);
                    if (!(it[w] == e2)) { J q; q.add((long)((*it[w]).first - b)); q.add((long)((*it[w]).second - b)); r.add(q); const std::string m = it[w].remaining(); J z; z.add((long)(s.size() - m.size())); z.add((long)s.size()); r.add(z);
                       if (s.substr(s.size() - m.size()) != m) r.add("remaining"); if (it[w].as_string() != std::string((*it[w]).first, (*it[w]).second)) r.add("as_string"); } } break;
      }
      out.add(r);
   }
   g.put(out);
}
OP(tok_hist)
{
   const std::string d = str(in[0]); Agree g;
   tokhist_with(strtk::multiple_char_delimiter_predicate(d), in, g);
   { strtk::multiple_delimiter_predicate<char> p(d.data(), d.size()); tokhist_with(p, in, g); }
   if (d.size() == 1) tokhist_with(strtk::single_delimiter_predicate<char>(d[0]), in, g);
   return g.one();
}

OP(predicate)
{
   const std::string d = str(in[0]); Agree g;
   strtk::multiple_char_delimiter_predicate a(d), a2(d.begin(), d.end());
   strtk::multiple_delimiter_predicate<char> b(d.data(), d.size()), b2(d.begin(), d.end()), b3(d.data(), d.data() + d.size()), b4((strtk::range::adapter<const char>(d.data(), d.size())));
   strtk::multiple_delimiter_predicate<unsigned char> u((const unsigned char*)d.data(), d.size());
   J ja, ja2, ja3, jb, jb2, jb3, jb4, ju;
   for (int c = 0; c < 256; ++c) {
      ja.add(a((char)c)); ja2.add(a2((char)c)); ja3.add(a((unsigned char)c)); jb.add(b((char)c)); jb2.add(b2((char)c)); jb3.add(b3((char)c)); jb4.add(b4((char)c)); ju.add(u((unsigned char)c));
   }
   g.put(ja); g.put(ja2); g.put(ja3); g.put(jb); g.put(jb2); g.put(jb3); g.put(jb4); g.put(ju);
   if (d.size() == 1) { strtk::single_delimiter_predicate<char> p(d[0]); J j; for (int c = 0; c < 256; ++c) j.add(p((char)c)); g.put(j); }
   return g.get();
}
// many fields: a piece repeated
namespace {
template <typename C> J many(const C& v, std::size_t count, std::size_t n)
{
   J j; j.add(count); std::string s, last; std::size_t k = 0; for (typename C::const_iterator i = v.begin(); i != v.end(); ++i) { const std::string t(i->first, i->second); if (++k < v.size()) { s += t; s += '|'; } else last = t; }
   j.add(packed(s, n)); j.add(bytes(last)); return j;
}
template <typename P> void many_with(Agree& g, const P& p, const std::string& s, std::size_t n, std::size_t opt)
{
   { std::vector<R> v; const std::size_t c = strtk::split(p, s, std::back_inserter(v), opt); g.put(many(v, c, n)); }
   { std::vector<R> v; const std::size_t c = strtk::split_n(p, s, s.size() + 2, std::back_inserter(v), opt); g.put(many(v, c, n)); }
   { std::vector<R> v; std::size_t c = 0; typedef typename strtk::std_string::template tokenizer<P>::type T; T t(s, p, (strtk::tokenize_options::type)opt); std::vector<R> w; for (typename T::iterator i = t.begin(); i != t.end(); ++i, ++c) w.push_back(*i); if (!w.empty() && (opt < 2)) g.put(many(w, c, n)); }
}
}
OP(bulk)
{
   const std::string s = times(str(in[0]), in[1].n), d = str(in[2]); const std::size_t n = in[1].n, opt = in[3].n; Agree g;
   many_with(g, strtk::multiple_char_delimiter_predicate(d), s, n, opt); if (d.size() == 1) many_with(g, strtk::single_delimiter_predicate<char>(d[0]), s, n, opt);
   { std::list<R> v; const std::size_t c = strtk::split(d, s, v, opt); g.put(many(v, c, n)); }
   if (!opt) { std::vector<R> v; Fn2 f; f.v = &v; const std::size_t c = strtk::for_each_token(s, d, f); g.put(many(v, c, n)); }
   return g.one();
}
