#ifndef AGREE_HPP
#define AGREE_HPP
#include "vh.hpp"
// Several entry points must give the same observation.  The result is the list of distinct
// observations (one element when all entry points agree).
struct Agree {
   std::vector<std::string> keys; vh::J vals;
   void put(const vh::J& j) { std::string d; j.dump(d); for (std::size_t x = 0; x < keys.size(); ++x) if (keys[x] == d) return; keys.push_back(d); vals.add(j); }
   vh::J get() const { return vals; }
   // the one observation; entry points that differ are reported as a failure of the operation
   vh::J one() const { if (keys.size() == 1) return vals[0]; std::string m = "entry points disagree:"; for (std::size_t x = 0; x < keys.size(); ++x) m += " " + keys[x].substr(0, 300); throw std::runtime_error(m); }
};
#endif
