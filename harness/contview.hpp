#ifndef CONTVIEW_HPP
#define CONTVIEW_HPP
#include "bulk.hpp"
#include <deque>
#include <list>
#include <set>
#include <queue>
#include <stack>
#include <algorithm>
// contents of a container as texts: insertion order for sequences, sorted by text otherwise
template <typename T> struct Txt { static std::string s(const T& t) { char b[32]; std::snprintf(b, sizeof b, "%lld", (long long)t); return b; } };
template <> struct Txt<std::string> { static std::string s(const std::string& t) { return t; } };
typedef std::vector<std::string> TV;
// how often a piece of the input is repeated; a long list is then shown as what was there before, the part that repeats, the rest;
// a sorted one as each distinct text and how often it occurs
inline std::size_t& copies() { static std::size_t n = 0; return n; }
inline vh::J tv(const TV& v)
{
   const std::size_t n = copies(); if (!n) return vh::jstrs(v);
   vh::J j, r; const std::size_t q = v.size() ? (v.size() - 1) / n : 0; if (v.size()) j.add(vh::bytes(v[0])); std::string s; for (std::size_t k = 1; k < 1 + q * n; ++k) { s += v[k]; s += '|'; }
   j.add(vh::packed(s, n)); for (std::size_t k = 1 + q * n; k < v.size() && k < 9 + q * n; ++k) r.add(vh::bytes(v[k])); j.add(r); return j;
}
inline vh::J sv(const TV& v, bool set)
{
   if (!copies() || set) return vh::jstrs(v);
   vh::J j; for (std::size_t k = 0, b = 0; k < v.size() && j.size() < 99; k = b) { while (b < v.size() && v[b] == v[k]) ++b; vh::J x; x.add(vh::bytes(v[k])); x.add(b - k); j.add(x); } return j;
}
struct ByteLess { bool operator()(const std::string& a, const std::string& b) const { return std::lexicographical_compare((const unsigned char*)a.data(), (const unsigned char*)a.data() + a.size(), (const unsigned char*)b.data(), (const unsigned char*)b.data() + b.size()); } };
inline TV sorted(TV v) { std::sort(v.begin(), v.end(), ByteLess()); return v; }
template <typename C> TV flat(const C& c) { TV v; for (typename C::const_iterator i = c.begin(); i != c.end(); ++i) v.push_back(Txt<typename C::value_type>::s(*i)); return v; }
template <typename T, typename A> vh::J view(const std::vector<T,A>& c) { return tv(flat(c)); }
template <typename T, typename A> vh::J view(const std::deque<T,A>& c) { return tv(flat(c)); }
template <typename T, typename A> vh::J view(const std::list<T,A>& c) { return tv(flat(c)); }
template <typename T, typename C, typename A> vh::J view(const std::set<T,C,A>& c) { return sv(sorted(flat(c)), true); }
template <typename T, typename C, typename A> vh::J view(const std::multiset<T,C,A>& c) { return sv(sorted(flat(c)), false); }
template <typename T, typename C> vh::J view(std::queue<T,C> c) { TV v; while (!c.empty()) { v.push_back(Txt<T>::s(c.front())); c.pop(); } return tv(v); }
template <typename T, typename C> vh::J view(std::stack<T,C> c) { TV v; while (!c.empty()) { v.push_back(Txt<T>::s(c.top())); c.pop(); } std::reverse(v.begin(), v.end()); return tv(v); }
template <typename T, typename C, typename D> vh::J view(std::priority_queue<T,C,D> c) { TV v; while (!c.empty()) { v.push_back(Txt<T>::s(c.top())); c.pop(); } return sv(sorted(v), false); }
inline void old(std::vector<int>& c) { c.push_back(5); }
inline void old(std::deque<int>& c) { c.push_back(5); }
inline void old(std::list<int>& c) { c.push_back(5); }
inline void old(std::set<int>& c) { c.insert(5); }
inline void old(std::multiset<int>& c) { c.insert(5); }
inline void old(std::queue<int>& c) { c.push(5); }
inline void old(std::stack<int>& c) { c.push(5); }
inline void old(std::priority_queue<int>& c) { c.push(5); }
inline void old(std::vector<std::string>& c) { c.push_back("zz"); }
inline void old(std::deque<std::string>& c) { c.push_back("zz"); }
inline void old(std::list<std::string>& c) { c.push_back("zz"); }
inline void old(std::set<std::string>& c) { c.insert("zz"); }
inline void old(std::multiset<std::string>& c) { c.insert("zz"); }
inline void old(std::queue<std::string>& c) { c.push("zz"); }
inline void old(std::stack<std::string>& c) { c.push("zz"); }
inline void old(std::priority_queue<std::string>& c) { c.push("zz"); }
#endif
