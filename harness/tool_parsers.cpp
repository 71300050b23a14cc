#define main period_main
#include "strtk_period_parser.cpp"
#undef main
#define main ipv4_main
#include "strtk_ipv4_parser.cpp"
#undef main
#include <stdexcept>
bool parse_address(const std::string& s, unsigned char* o, unsigned int& ip) { ipv4_parser p; const bool a = p(s, o), b = p(s, ip); if (a != b) throw std::runtime_error("forms differ"); return a; }
bool parse_period(const std::string& s, long long& t) { period_parser p; const bool a = p(s, t); long long u = 0; period_parser q; std::string c(s); if (!c.empty() && (q(&c[0], &c[0] + c.size(), u) != a || (a && u != t))) throw std::runtime_error("forms differ"); return a; }
