#include "agree.hpp"
#include "bulk.hpp"
#include "strtk.hpp"
#include <sys/stat.h>
using namespace vh;
namespace {
const char* N[] = { "fa.tmp", "fb.tmp", "fc.tmp", "nodir/fd.tmp" };
bool raw_get(const char* n, std::string& s) { FILE* f = std::fopen(n, "rb"); if (!f) return false; s.clear(); char b[65536]; std::size_t k; while ((k = std::fread(b, 1, sizeof b, f)) > 0) s.append(b, k); std::fclose(f); return true; }
void raw_put(const char* n, const std::string& s) { FILE* f = std::fopen(n, "wb"); if (!f) throw std::runtime_error("scratch file"); std::fwrite(s.data(), 1, s.size(), f); std::fclose(f); }
J runs(const std::string& s) { J j; for (std::size_t x = 0; x < s.size();) { std::size_t y = x; while (y < s.size() && s[y] == s[x]) ++y; J p; p.add((int)(unsigned char)s[x]); p.add((int)(y - x)); j.add(p); x = y; } return j; }
std::string unruns(const J& j) { std::string s; for (std::size_t x = 0; x < j.size(); ++x) s.append(j[x][1].n, (char)j[x][0].n); return s; }
struct Push { std::vector<std::string>* v; Push(std::vector<std::string>& x) : v(&x) {} void operator()(const std::string& s) { v->push_back(s); } };
struct Stop { std::vector<std::string>* v; std::string stop; Stop(std::vector<std::string>& x, const std::string& s) : v(&x), stop(s) {} bool operator()(const std::string& s) { v->push_back(s); return s != stop; } };
typedef std::vector<std::string> VS;
J counted(const VS& v, std::size_t n) { if (v.size() != n) throw std::runtime_error("count differs from the lines seen"); return jstrs(v); }
J pair(const J& a, const J& b) { J j; j.add(a); j.add(b); return j; }
}
OP(files)
{
   namespace F = strtk::fileio; J out;
   for (int k = 0; k < 3; ++k) std::remove(N[k]);
   for (std::size_t n = 0; n < in[0].size(); ++n) {
      const J& e = in[0][n]; const std::string& w = e[0].s; const std::string a = N[e[1].n - 1]; J ret(1), data;
      if (w == "exists") ret = J(F::file_exists(a));
      else if (w == "size") ret = J((long long)F::file_size(a));
      else if (w == "load") { std::string s = "old contents"; const bool ok = F::load_file(a, s); ret = J(ok); if (ok) data = runs(s); }
      else if (w == "loadn") { Buf b((std::size_t)e[2].n, '.'); ret = J(F::load_file(a, b.b(), b.n)); data = runs(b.s()); }
      else if (w == "write") { const std::string s = unruns(e[2]); if (n % 2) ret = J(F::write_file(a, s)); else { Buf b(s); ret = J(F::write_file(a, b.b(), b.n)); } }
      else if (w == "copy") ret = J(F::copy_file(a, N[e[2].n - 1]));
      else if (w == "cat") ret = J(F::concatenate(a, N[e[2].n - 1], N[e[3].n - 1]));
      else if (w == "same") ret = J(F::files_identical(a, N[e[2].n - 1]));
      else if (w == "at") { Agree g; { Buf b((std::size_t)e[3].n, '.'); const bool ok = F::read_at_offset(a, e[2].n, b.b(), b.n); g.put(pair(J(ok), ok ? runs(b.s()) : J())); }
         { std::string s; const bool ok = F::read_at_offset(a, e[2].n, s, e[3].n); g.put(pair(J(ok), ok ? runs(s) : J())); }
         { Buf b((std::size_t)e[3].n, '.'); std::ifstream s(a.c_str(), std::ios::binary); const bool ok = F::read_at_offset(s, e[2].n, b.b(), b.n); g.put(pair(J(ok), ok ? runs(b.s()) : J())); }
         const J x = g.one(); ret = x[0]; data = x[1]; }
      else if (w == "rm") std::remove(a.c_str());
      else throw std::runtime_error("event");
      J fs; for (int k = 0; k < 4; ++k) { std::string s; const bool ok = raw_get(N[k], s); fs.add(pair(J(ok), ok ? runs(s) : J())); }
      J x; x.add(ret); x.add(data); x.add(fs); out.add(x);
   }
   for (int k = 0; k < 3; ++k) std::remove(N[k]);
   return out;
}
OP(lines)
{
   const std::string t = str(in[0]), f = N[0]; raw_put(N[0], t); Agree g; const std::size_t big = 1 + t.size();
   #define VISIT(call) { VS v; g.put(counted(v, 0)); }
   { VS v; const std::size_t n = strtk::for_each_line(f, Push(v)); g.put(counted(v, n)); }
   { VS v; std::istringstream s(t); const std::size_t n = strtk::for_each_line(s, Push(v), 1); g.put(counted(v, n)); }
   { VS v; const std::size_t n = strtk::for_each_line_n(f, big, Push(v)); g.put(counted(v, n)); }
   { VS v; std::istringstream s(t); const std::size_t n = strtk::for_each_line_n(s, big, Push(v)); g.put(counted(v, n)); }
   { VS v; const std::size_t n = strtk::for_each_line_conditional(f, Stop(v, "\n")); g.put(counted(v, n)); }
   { VS v; const std::size_t n = strtk::for_each_line_n_conditional(f, big, Stop(v, "\n")); g.put(counted(v, n)); }
   #define LOAD(C) { C v; const std::size_t n = strtk::load_from_text_file(f, v); g.put(counted(VS(v.begin(), v.end()), n)); } { C v; std::istringstream s(t); const std::size_t n = strtk::load_from_text_file(s, v); g.put(counted(VS(v.begin(), v.end()), n)); }
   LOAD(VS) LOAD(std::list<std::string>) LOAD(std::deque<std::string>)
   { VS x(1, "first"); strtk::load_from_text_file(f, x); if (x[0] != "first") throw std::runtime_error("loading replaced the contents"); x.erase(x.begin()); g.put(jstrs(x)); }
   { std::queue<std::string> q; const std::size_t n = strtk::load_from_text_file(f, q); VS v; while (!q.empty()) { v.push_back(q.front()); q.pop(); } g.put(counted(v, n)); }
   { std::stack<std::string> q; const std::size_t n = strtk::load_from_text_file(f, q); VS v; while (!q.empty()) { v.insert(v.begin(), q.top()); q.pop(); } g.put(counted(v, n)); }
   { std::istringstream s(t); std::stack<std::string> q; const std::size_t n = strtk::load_from_text_file(s, q); VS v; while (!q.empty()) { v.insert(v.begin(), q.top()); q.pop(); } g.put(counted(v, n)); }
   { std::istringstream s(t); std::queue<std::string> q; const std::size_t n = strtk::load_from_text_file(s, q); VS v; while (!q.empty()) { v.push_back(q.front()); q.pop(); } g.put(counted(v, n)); }
   { VS v; std::string l = "x"; std::istringstream s(t); while (strtk::read_line_as_value(s, l)) v.push_back(l); g.put(jstrs(v)); }
   std::remove(N[0]); return g.one();
}
OP(linesn)
{
   const std::string t = str(in[0]), f = N[0]; raw_put(N[0], t); Agree g; const std::size_t k = in[1].n;
   { VS v; const std::size_t n = strtk::for_each_line_n(f, k, Push(v)); g.put(pair(jstrs(v), J(n))); }
   { VS v; std::istringstream s(t); const std::size_t n = strtk::for_each_line_n(s, k, Push(v)); g.put(pair(jstrs(v), J(n))); }
   { VS v; const std::size_t n = strtk::for_each_line_n_conditional(f, k, Stop(v, "\n")); g.put(pair(jstrs(v), J(n))); }
   std::remove(N[0]); return g.one();
}
OP(linesc)
{
   const std::string t = str(in[0]), f = N[0], stop = str(in[2]); raw_put(N[0], t); Agree g; const std::size_t k = in[1].n ? in[1].n : t.size() + 1;
   { VS v; const std::size_t n = strtk::for_each_line_n_conditional(f, k, Stop(v, stop)); g.put(pair(jstrs(v), J(n))); }
   { VS v; std::istringstream s(t); const std::size_t n = strtk::for_each_line_n_conditional(s, k, Stop(v, stop)); g.put(pair(jstrs(v), J(n))); }
   if (!in[1].n) {
      { VS v; const std::size_t n = strtk::for_each_line_conditional(f, Stop(v, stop)); g.put(pair(jstrs(v), J(n))); }
      { VS v; std::istringstream s(t); const std::size_t n = strtk::for_each_line_conditional(s, Stop(v, stop)); g.put(pair(jstrs(v), J(n))); }
   }
   std::remove(N[0]); return g.one();
}
OP(lineset)
{
   const std::string t = str(in[0]), f = N[0]; raw_put(N[0], t); Agree g;
   for (int how = 0; how < 2; ++how) {
      std::set<std::string> s; std::multiset<std::string> m; std::priority_queue<std::string> p; std::size_t a, b, c;
      if (how) { a = strtk::load_from_text_file(f, s); b = strtk::load_from_text_file(f, m); c = strtk::load_from_text_file(f, p); }
      else { std::istringstream x(t), y(t), z(t); a = strtk::load_from_text_file(x, s); b = strtk::load_from_text_file(y, m); c = strtk::load_from_text_file(z, p); }
      if (a != b || b != c || m.size() != b) throw std::runtime_error("line counts");
      VS q; while (!p.empty()) { q.push_back(p.top()); p.pop(); }
      J j; j.add(jstrs(s)); j.add(jstrs(m)); j.add(jstrs(q)); g.put(j);
   }
   std::remove(N[0]); return g.one();
}
namespace {
template <typename C> J store(const C& c, const std::string& d)
{
   Agree g; std::string s;
   { const std::size_t n = strtk::write_to_text_file(std::string(N[0]), c, d); if (n != c.size()) throw std::runtime_error("count written"); raw_get(N[0], s); g.put(bytes(s)); }
   { std::ostringstream o; const std::size_t n = strtk::write_to_text_file(o, c, d); if (n != c.size()) throw std::runtime_error("count written"); g.put(bytes(o.str())); }
   if (d.empty()) { std::ostringstream o; strtk::write_to_text_file(o, c); g.put(bytes(o.str())); }
   std::remove(N[0]); return g.one();
}
}
OP(wlines)
{
   const VS l = strs(in[0]); const std::string d = str(in[1]); Agree g;
   g.put(store(l, d)); g.put(store(std::list<std::string>(l.begin(), l.end()), d)); g.put(store(std::deque<std::string>(l.begin(), l.end()), d));
   J j; j.add(g.one()); j.add(store(std::set<std::string>(l.begin(), l.end()), d)); j.add(store(std::multiset<std::string>(l.begin(), l.end()), d)); return j;
}
OP(lineints)
{
   const VS l = strs(in[0]); std::vector<int> v, w; for (std::size_t x = 0; x < l.size(); ++x) v.push_back(std::atoi(l[x].c_str()));
   J j; j.add(store(v, "\n"));
   strtk::write_to_text_file(std::string(N[0]), v, "\n"); const std::size_t n = strtk::load_from_text_file(std::string(N[0]), w); if (n != w.size()) throw std::runtime_error("count");
   J a; for (std::size_t x = 0; x < w.size(); ++x) a.add(bytes(std::to_string(w[x]))); j.add(a);
   J b; std::ifstream s(N[0]); int q = 0; while (strtk::read_line_as_value(s, q)) b.add(bytes(std::to_string(q))); j.add(b);
   std::remove(N[0]); return j;
}
namespace {
template <typename C> std::size_t unread(const std::string& f, C c) { const std::size_t was = c.size(); std::ifstream s(f.c_str()); std::size_t n = strtk::load_from_text_file(f, c) + strtk::load_from_text_file(s, c); std::istringstream t("a\nb"); t.setstate(std::ios::failbit); n += strtk::load_from_text_file(t, c); return n + (c.size() != was); }
template <typename C> std::size_t unwritten(const std::string& f, const C& c) { std::size_t n = strtk::write_to_text_file(f, c, "\n"); std::ostringstream o; o.setstate(std::ios::failbit); n += strtk::write_to_text_file(o, c, "\n"); return n + o.str().size(); }
}
OP(nofile)
{
   const std::string f = in[0].n ? "nodir/none.tmp" : "none.tmp"; VS v, w(1, "x"); J j;
   j.add(strtk::for_each_line(f, Push(v)) + strtk::for_each_line_n(f, 3, Push(v)) + v.size()); j.add(strtk::for_each_line_conditional(f, Stop(v, "")) + strtk::for_each_line_n_conditional(f, 3, Stop(v, "")) + v.size());
   std::set<std::string> se(w.begin(), w.end()); std::multiset<std::string> ms(w.begin(), w.end()); std::queue<std::string> qu; qu.push("q"); std::stack<std::string> st; st.push("s"); std::priority_queue<std::string> pq; pq.push("p");
   { std::string l = "x"; int n = 7; std::ifstream s(f.c_str()); if (strtk::read_line_as_value(s, l) || strtk::read_line_as_value(s, n) || l != "x" || n != 7) throw std::runtime_error("line of nothing"); std::istringstream a("1\n"), b("2\n"); a.setstate(std::ios::failbit); b.setstate(std::ios::failbit);
     if (strtk::for_each_line(a, Push(v)) + strtk::for_each_line_n(a, 3, Push(v)) + strtk::for_each_line_conditional(b, Stop(v, "")) + strtk::for_each_line_n_conditional(b, 3, Stop(v, "")) + v.size()) throw std::runtime_error("lines of nothing"); }
   j.add(strtk::load_from_text_file(f, v) + v.size() + unread(f, w) + unread(f, std::deque<std::string>(3)) + unread(f, std::list<std::string>(2)) + unread(f, se) + unread(f, ms) + unread(f, qu) + unread(f, st) + unread(f, pq));
   j.add(in[0].n ? unwritten(f, w) + unwritten(f, std::list<std::string>(2)) + unwritten(f, std::deque<std::string>(2)) + unwritten(f, se) + unwritten(f, ms) : 0); j.add(strtk::fileio::file_exists(f)); j.add(strtk::fileio::file_size(f)); return j;
}
// a text of many lines
namespace { std::string piped(const VS& v) { std::string s; for (std::size_t k = 0; k < v.size(); ++k) { s += v[k]; s += '|'; } return s; }
template <typename C> J many(const C& c, std::size_t n, std::size_t k) { J j; j.add(n); j.add(c.size()); j.add(packed(piped(VS(c.begin(), c.end())), k)); return j; } }
OP(lines_bulk)
{
   const std::size_t k = in[1].n; const std::string t = times(str(in[0]), k), f = N[0]; raw_put(N[0], t); Agree g;
   { VS v; const std::size_t n = strtk::for_each_line(f, Push(v)); g.put(many(v, n, k)); }
   { VS v; std::istringstream s(t); const std::size_t n = strtk::for_each_line(s, Push(v)); g.put(many(v, n, k)); }
   { VS v; const std::size_t n = strtk::for_each_line_n(f, t.size(), Push(v)); g.put(many(v, n, k)); }
   { VS v; const std::size_t n = strtk::for_each_line_conditional(f, Stop(v, "\n")); g.put(many(v, n, k)); }
   { VS v; const std::size_t n = strtk::load_from_text_file(f, v); g.put(many(v, n, k)); std::ostringstream o; const std::size_t m = strtk::write_to_text_file(o, v, "\n"); if (m != n || o.str() != t) throw std::runtime_error("lines written"); const std::size_t q = strtk::write_to_text_file(f, v, "\n"); std::string s; raw_get(N[0], s); if (q != n || s != t) throw std::runtime_error("lines stored"); }
   { std::list<std::string> v; const std::size_t n = strtk::load_from_text_file(f, v); g.put(many(v, n, k)); }
   { std::deque<std::string> v; std::istringstream s(t); const std::size_t n = strtk::load_from_text_file(s, v); g.put(many(v, n, k)); }
   { std::queue<std::string> q; const std::size_t n = strtk::load_from_text_file(f, q); VS v; while (!q.empty()) { v.push_back(q.front()); q.pop(); } g.put(many(v, n, k)); }
   { std::multiset<std::string> m; std::set<std::string> s; const std::size_t n = strtk::load_from_text_file(f, m), o = strtk::load_from_text_file(f, s); VS v; strtk::load_from_text_file(f, v); if (n != o || m.size() != n || s != std::set<std::string>(v.begin(), v.end())) throw std::runtime_error("lines in sets"); }
   { VS v; const std::size_t lim = in[2].n, n = strtk::for_each_line_n(f, lim, Push(v)); J j; j.add(n); j.add(v.size()); std::remove(N[0]); J r; r.add(g.one()); r.add(j); return r; }
}
// a file far larger than its contents: marks at places given as <<high, low>> (units of 2^24), holes between
OP(huge)
{
   namespace F = strtk::fileio; const char* f = "huge.tmp"; FILE* o = std::fopen(f, "wb"); if (!o) throw std::runtime_error("scratch file");
   #define AT(e) ((unsigned long long)(e)[0].n * 16777216ull + (unsigned long long)(e)[1].n)
   for (std::size_t k = 0; k < in[0].size(); ++k) { const std::string s = str(in[0][k][2]); if (fseeko(o, (off_t)AT(in[0][k]), SEEK_SET) || std::fwrite(s.data(), 1, s.size(), o) != s.size()) { std::fclose(o); std::remove(f); throw std::runtime_error("scratch file"); } }
   std::fclose(o); J j, sz; const std::size_t n = F::file_size(f); sz.add(n / 16777216); sz.add(n % 16777216); j.add(sz); j.add(F::file_exists(f));
   for (std::size_t k = 0; k < in[1].size(); ++k) {
      const std::size_t at = AT(in[1][k]), c = in[1][k][2].n; Agree g;
      { Buf b(c, '.'); const bool ok = F::read_at_offset(f, at, b.b(), b.n); g.put(pair(J(ok), ok ? bytes(b.s()) : J())); }
      { std::string s; const bool ok = F::read_at_offset(f, at, s, c); g.put(pair(J(ok), ok ? bytes(s) : J())); }
      { Buf b(c, '.'); std::ifstream s(f, std::ios::binary); const bool ok = F::read_at_offset(s, at, b.b(), b.n); g.put(pair(J(ok), ok ? bytes(b.s()) : J())); }
      j.add(g.one()); }
   std::remove(f); return j;
}
