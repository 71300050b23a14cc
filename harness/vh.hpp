// Executor framework: reads ndjson records {"o":op,"i":[...]}, runs the operation on the real
// strtk code and prints one JSON result per record.  A record is executed in isolation; a crash
// (sanitizer report, abort), an escaping exception or a hang is attributed to that record.
#ifndef VH_HPP
#define VH_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <stdexcept>
#include <memory>
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>

namespace vh {

struct J {
   enum K { INT, STR, ARR } k; long long n; std::string s; std::vector<J> a;
   J() : k(ARR), n(0) {}
   J(long long v) : k(INT), n(v) {}
   J(int v) : k(INT), n(v) {}
   J(unsigned v) : k(INT), n(v) {}
   J(long v) : k(INT), n(v) {}
   J(unsigned long v) : k(INT), n((long long)v) {}
   J(unsigned long long v) : k(INT), n((long long)v) {}
   J(bool v) : k(INT), n(v ? 1 : 0) {}
   static J S(const std::string& v) { J j; j.k = STR; j.s = v; return j; }
   J& add(const J& v) { a.push_back(v); return *this; }
   const J& operator[](std::size_t x) const { if (x >= a.size()) { std::fprintf(stderr,"harness: bad arg index\n"); _exit(97);} return a[x]; }
   std::size_t size() const { return a.size(); }
   void dump(std::string& o) const {
      if (k == INT) { char b[32]; std::snprintf(b, sizeof b, "%lld", n); o += b; }
      else if (k == STR) { o += '"'; o += s; o += '"'; }
      else { o += '['; for (std::size_t x = 0; x < a.size(); ++x) { if (x) o += ','; a[x].dump(o); } o += ']'; }
   }
};

struct Parser {
   const char* p;
   explicit Parser(const char* q) : p(q) {}
   void ws() { while (*p == ' ' || *p == '\t') ++p; }
   J val() {
      ws();
      if (*p == '[') {
         ++p; J j; ws();
         if (*p == ']') { ++p; return j; }
         for (;;) { j.a.push_back(val()); ws(); if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return j; } bad(); }
      }
      if (*p == '"') { ++p; J j; j.k = J::STR; while (*p && *p != '"') j.s += *p++; if (!*p) bad(); ++p; return j; }
      if (!std::strncmp(p, "true", 4)) { p += 4; return J(1); }
      if (!std::strncmp(p, "false", 5)) { p += 5; return J(0); }
      char* e; long long v = std::strtoll(p, &e, 10); if (e == p) bad(); p = e; return J(v);
   }
   void rec(std::string& o, J& i) {
      ws(); if (*p != '{') bad(); ++p;
      for (;;) {
         ws(); J key = val(); ws(); if (*p != ':') bad(); ++p; J v = val();
         if (key.s == "o") o = v.s; else if (key.s == "i") i = v;
         ws(); if (*p == ',') { ++p; continue; } if (*p == '}') return; bad();
      }
   }
   void bad() { std::fprintf(stderr, "harness: bad json near: %.40s\n", p); _exit(97); }
};

typedef J (*Fn)(const J&);
inline std::map<std::string, Fn>& ops() { static std::map<std::string, Fn> m; return m; }
struct Reg { Reg(const char* n, Fn f) { if (!ops().insert(std::make_pair(std::string(n), f)).second) { std::fprintf(stderr,"dup op %s\n", n); _exit(97);} } };

#define OP(name) \
   static vh::J op_##name(const vh::J& in); \
   static vh::Reg reg_##name(#name, op_##name); \
   static vh::J op_##name(const vh::J& in)

// byte strings <-> arrays of ints
// A letter of 256 * n + c stands for the byte c written n times.  When a record uses one, every
// run of that length or more is reported the same way: the specification sees one letter.
inline bool& stretched() { static bool b = false; return b; }
static const std::size_t long_run = 300;
inline std::string str(const J& j)
{
   std::string s; s.reserve(j.size());
   for (std::size_t x = 0; x < j.size(); ++x) { const long long n = j[x].n; if (n >= (long long)(256 * long_run)) { stretched() = true; s.append((std::size_t)(n / 256), (char)(unsigned char)(n % 256)); } else s += (char)(unsigned char)n; }
   return s;
}
template <typename It> inline J bytes(It b, It e)
{
   J j;
   while (b != e)
   {
      const int c = (int)(unsigned char)*b;
      if (!stretched()) { j.add(c); ++b; continue; }
      std::size_t k = 0; for (; b != e && (int)(unsigned char)*b == c; ++b) ++k;
      if (k >= long_run) j.add((long long)(256 * k + c)); else while (k--) j.add(c);
   }
   return j;
}
inline J bytes(const std::string& s) { return bytes(s.begin(), s.end()); }
inline std::vector<std::string> strs(const J& j) { std::vector<std::string> v; for (std::size_t x = 0; x < j.size(); ++x) v.push_back(str(j[x])); return v; }
template <typename C> inline J jstrs(const C& c) { J j; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) j.add(bytes(*i)); return j; }
template <typename C> inline J jints(const C& c) { J j; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) j.add(J((long long)*i)); return j; }
inline std::vector<int> ints(const J& j) { std::vector<int> v; for (std::size_t x = 0; x < j.size(); ++x) v.push_back((int)j[x].n); return v; }

// wide integers travel as decimal byte strings
inline J dec(unsigned long long v) { char b[32]; std::snprintf(b, sizeof b, "%llu", v); return bytes(std::string(b)); }
inline J dec(long long v) { char b[32]; std::snprintf(b, sizeof b, "%lld", v); return bytes(std::string(b)); }
inline unsigned long long undec(const J& j) { std::string s = str(j); return s[0] == '-' ? (unsigned long long)std::strtoll(s.c_str(),0,10) : std::strtoull(s.c_str(),0,10); }

// exact-size heap copy: one byte past either end is caught by the address sanitizer
struct Buf {
   std::size_t n; char* d;
   explicit Buf(const std::string& s) : n(s.size()), d((char*)std::malloc(s.size() ? s.size() : 1)) { if (n) std::memcpy(d, s.data(), n); if (!n) { std::free(d); d = (char*)std::malloc(0); } }
   explicit Buf(std::size_t k, char fill) : n(k), d((char*)std::malloc(k)) { if (k) std::memset(d, fill, k); }
   ~Buf() { std::free(d); }
   char* b() { return d; } char* e() { return d + n; }
   const char* cb() const { return d; } const char* ce() const { return d + n; }
   const unsigned char* ub() const { return (const unsigned char*)d; } const unsigned char* ue() const { return (const unsigned char*)d + n; }
   unsigned char* mub() { return (unsigned char*)d; }
   std::string s() const { return std::string(d, n); }
private: Buf(const Buf&); Buf& operator=(const Buf&);
};

inline void on_alarm(int) { static const char m[] = "\nHANG\n"; (void)!write(2, m, sizeof m - 1); _exit(98); }

inline int main_(int argc, char** argv) {
   // argv: in out start
   if (argc < 4) { std::fprintf(stderr, "usage\n"); return 97; }
   std::ifstream in(argv[1]); if (!in) return 97;
   FILE* out = std::fopen(argv[2], "a"); if (!out) return 97;
   long start = std::atol(argv[3]); long idx = 0; std::string line;
   int lim = argc > 4 ? std::atoi(argv[4]) : 20;
   signal(SIGVTALRM, on_alarm);
   while (std::getline(in, line)) {
      if (idx++ < start) continue;
      std::string o; J i; Parser p(line.c_str()); p.rec(o, i);
      std::map<std::string, Fn>::iterator f = ops().find(o);
      if (f == ops().end()) { std::fprintf(stderr, "harness: unknown op %s\n", o.c_str()); return 97; }
      struct itimerval tv; std::memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = lim; setitimer(ITIMER_VIRTUAL, &tv, 0);
      std::string r; stretched() = false;
      try { J j = f->second(i); j.dump(r); }
      catch (const std::exception& e) { r = std::string("!EXC ") + e.what(); for (std::size_t x = 0; x < r.size(); ++x) if (r[x] == '\n') r[x] = ' '; }
      catch (...) { r = "!EXC unknown"; }
      std::memset(&tv, 0, sizeof tv); setitimer(ITIMER_VIRTUAL, &tv, 0);
      r += '\n';
      std::fwrite(r.data(), 1, r.size(), out); std::fflush(out);
   }
   std::fclose(out);
   return 0;
}
} // namespace vh
#endif
