// The tools are compiled from the tree with their main renamed; every run is a process of its own
// with the standard streams on scratch files.
#include "agree.hpp"
#include <algorithm>
#include <ctime>
#include <fcntl.h>
#include <set>
#include <sys/wait.h>
using namespace vh;
int wordfreq_main(int, char**); int numstats_main(int, char**); int glober_main(int, char**); int hexview_main(int, char**);
int combinations_main(int, char**); int randomizer_main(int, char**); int random_line_main(int, char**);
bool parse_address(const std::string&, unsigned char*, unsigned int&); bool parse_period(const std::string&, long long&);
static std::time_t now_ = 0;
extern "C" std::time_t __wrap_time(std::time_t* t) { if (t) *t = now_; return now_; }
namespace {
typedef std::string S;
S scratch(const char* n) { return S("tools_") + std::to_string((long)getpid()) + "_" + n; }
void spill(const S& p, const S& d) { FILE* f = std::fopen(p.c_str(), "wb"); if (!f) throw std::runtime_error("scratch"); if (!d.empty() && std::fwrite(d.data(), 1, d.size(), f) != d.size()) throw std::runtime_error("scratch"); std::fclose(f); }
S slurp(const S& p) { S r; FILE* f = std::fopen(p.c_str(), "rb"); if (!f) throw std::runtime_error("scratch"); char b[4096]; std::size_t n; while ((n = std::fread(b, 1, sizeof b, f)) > 0) r.append(b, n); std::fclose(f); return r; }
struct Done { int rc; S out; };
// the exit status and what was printed
Done run(int (*tool)(int, char**), const std::vector<S>& args, const S& in)
{
   const S fi = scratch("in"), fo = scratch("out"); spill(fi, in); spill(fo, ""); std::fflush(0);
   const pid_t p = fork(); if (p < 0) throw std::runtime_error("fork");
   if (!p) {
      const int a = open(fi.c_str(), O_RDONLY), b = open(fo.c_str(), O_WRONLY | O_TRUNC); if (a < 0 || b < 0) _exit(90);
      dup2(a, 0); dup2(b, 1); std::vector<char*> av; static char nm[] = "tool"; av.push_back(nm); std::vector<S> c(args); for (std::size_t k = 0; k < c.size(); ++k) av.push_back(const_cast<char*>(c[k].c_str())); av.push_back(0);
      int rc = 91; try { rc = tool((int)av.size() - 1, &av[0]); } catch (...) { rc = 92; } std::cout.flush(); std::fflush(0); _exit(rc & 255);
   }
   int st = 0; while (waitpid(p, &st, 0) != p) {} 
   if (!WIFEXITED(st)) throw std::runtime_error("tool killed"); const int rc = WEXITSTATUS(st); if (rc > 1) throw std::runtime_error("tool failed with status " + std::to_string(rc));
   Done d; d.rc = rc; d.out = rc ? S() : slurp(fo); unlink(fi.c_str()); unlink(fo.c_str()); return d;
}
J show(const Done& d) { J r; r.add(d.rc); r.add(bytes(d.out)); return r; }
// 0 standard input, 1 a file, 2 a file that is not there
Done feed(int (*tool)(int, char**), int via, const S& data)
{
   std::vector<S> a; if (!via) return run(tool, a, data); const S f = scratch("data"); if (via == 1) spill(f, data); a.push_back(f); Done d = run(tool, a, "unrelated 1 2 3\n"); unlink(f.c_str()); return d;
}
}
OP(words) { return show(feed(wordfreq_main, (int)in[0].n, str(in[1]))); }
OP(stats) { return show(feed(numstats_main, (int)in[0].n, str(in[1]))); }
OP(glob) { return show(run(glober_main, strs(in[0]), str(in[1]))); }
OP(hex) { return show(run(hexview_main, std::vector<S>(), str(in[0]))); }
OP(combos) { return show(run(combinations_main, strs(in[0]), "")); }
OP(shuffle) { now_ = in[2].n; return show(feed(randomizer_main, (int)in[0].n, str(in[1]))); }
OP(shuffles)
{
   S data; for (int k = 1; k <= in[0].n; ++k) data += std::to_string(k) + "\n"; std::set<S> got; for (int k = 0; k < in[2].n; ++k) { now_ = in[1].n + k; got.insert(feed(randomizer_main, k % 2, data).out); }
   J r; for (std::set<S>::iterator i = got.begin(); i != got.end(); ++i) { J v; std::istringstream f(*i); S l; while (std::getline(f, l)) v.add(std::atoi(l.c_str())); r.add(v); } return r;
}
OP(pick) { now_ = in[1].n; return show(feed(random_line_main, 1, str(in[0]))); }
OP(picks)
{
   S data; for (int k = 1; k <= in[0].n; ++k) data += std::to_string(k) + "\n"; std::vector<int> c((std::size_t)in[0].n); for (int k = 0; k < in[2].n; ++k) { now_ = in[1].n + k; const int w = std::atoi(feed(random_line_main, 1, data).out.c_str()); if (w < 1 || w > in[0].n) throw std::runtime_error("not a line"); ++c[(std::size_t)w - 1]; } return jints(c);
}
OP(addr) { unsigned char o[4] = { 0, 0, 0, 0 }; unsigned ip = 0; Agree g; const bool a = parse_address(str(in[0]), o, ip); J r, x, y; x.add(a); if (a) for (int k = 0; k < 4; ++k) y.add((int)o[k]); x.add(y); if (a && std::memcmp(&ip, o, 4)) throw std::runtime_error("forms differ"); r.add(x); return r; }
OP(period) { long long t = 0; const bool ok = parse_period(str(in[0]), t); J r; r.add(ok); r.add(ok ? t : 0); return r; }
