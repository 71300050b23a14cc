#ifndef GRIDHIST_HPP
#define GRIDHIST_HPP
#include "gridview.hpp"
#include <list>
// one edit; buffers handed to the grid stay alive in keep
struct Keep { std::list<Buf*> v; ~Keep() { for (std::list<Buf*>::iterator i = v.begin(); i != v.end(); ++i) delete *i; } Buf& add(const std::string& s) { v.push_back(new Buf(s)); return *v.back(); } };
inline bool edit(G& g, const J& e, Keep& keep, long& res)
{
   const std::string op = e[0].s; res = 1;
   if (op == "rmrow") g.remove_row(e[1].n);
   else if (op == "rmrowif") res = g.remove_row_if(rr(e[1].n, e[2].n), RowP(e[3].n));
   else if (op == "rmrowall") res = g.remove_row_if(RowP(e[1].n));
   else if (op == "rmtok") { if (e[3].n == 2) res = g.remove_empty_tokens(rr(e[1].n, e[2].n)); else res = g.remove_token_if(rr(e[1].n, e[2].n), CellP(e[3].n)); }
   else if (op == "rmempty") res = g.remove_empty_tokens();
   else if (op == "enforce") g.enforce_column_count(rr(e[1].n, e[2].n), e[3].n);
   else if (op == "enforceall") g.enforce_column_count(e[1].n);
   else if (op == "minmax") g.enforce_min_max_column_count(rr(e[1].n, e[2].n), e[3].n, e[4].n);
   else if (op == "minmaxall") g.enforce_min_max_column_count(e[1].n, e[2].n);
   else if (op == "clear") { g.clear(); res = !g; }
   else if (op == "reload") { Buf& b = keep.add(str(e[1])); res = g.load(b.mub(), b.n, gopt(e, 2)); if (!g) res = -1; }
   else if (op == "reloadfile") { const std::string t = str(e[1]); { std::ofstream f("re.txt", std::ios::binary); f.write(t.data(), t.size()); } res = g.load("re.txt", gopt(e, 2)); if (!g) res = -1; }
   else if (op == "loadmissing") { res = g.load("no-such-file.txt", G::options()); if (!(!g)) res = -1; }
   else return false;
   return true;
}
#endif
