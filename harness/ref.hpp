// Short reference descriptions shared by the harnesses (written from the property statements).
#pragma once
#include "sym.h"
#include <sstream>
#include <list>
static inline std::string ref_squash(const std::string &s) { std::string r; bool pend = false; for (char c : s) { if (c == ' ') pend = !r.empty(); else { if (pend) r.push_back(' '); pend = false; r.push_back(c); } } return r; }
// n bytes of text with k arbitrary bytes at spread places (n >= k); the other bytes are letters
static inline void sym_put(std::string &s, unsigned k) { size_t n = s.size(); for (unsigned j = 0; j < k && j < n; j++) s[k == 1 ? n - 1 : (n - 1) * j / (k - 1)] = (char)sym_u8(); }
static inline std::string letters(size_t n) { std::string s(n, 'a'); for (size_t i = 0; i < n; i++) s[i] = (char)('a' + i % 23); return s; }
static inline std::string sym_long(size_t n, unsigned k) { std::string s = letters(n); sym_put(s, k); return s; }
static inline bool ref_digit(char c) { return (unsigned)((unsigned char)c - '0') < 10u; }
// decimal text of v
static inline std::string ref_dec(uint64_t v) { static const uint64_t P[20] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull};
  int k = 1; while (k < 20 && v >= P[k]) k++; std::string r; for (int i = k - 1; i >= 0; i--) r.push_back((char)('0' + (v / P[i]) % 10u)); return r; }
static inline std::string ref_dec32(uint32_t v) { static const uint32_t P[10] = {1u, 10u, 100u, 1000u, 10000u, 100000u, 1000000u, 10000000u, 100000000u, 1000000000u};
  int k = 1; while (k < 10 && v >= P[k]) k++; std::string r; for (int i = k - 1; i >= 0; i--) r.push_back((char)('0' + (v / P[i]) % 10u)); return r; }
// separators between groups of g digits counted from the right
static inline std::string ref_group(const std::string &d, char sep, unsigned g) { std::string r; unsigned n = d.size(), cnt = 0; for (unsigned i = n; i-- > 0;) { if (cnt == g) { r.insert(r.begin(), sep); cnt = 0; } r.insert(r.begin(), d[i]); cnt++; } return r; }
static inline std::string ref_left(const std::string &s, char fill, size_t w) { std::string r = s; while (r.size() < w) r.insert(r.begin(), fill); return r; }
static inline std::string ref_right(const std::string &s, char fill, size_t w) { std::string r = s; while (r.size() < w) r.push_back(fill); return r; }
// expansion of a format string
static inline std::string ref_expand(const std::string &f, const std::vector<std::string> &v, int &unfilled) { std::string r; unfilled = 0; size_t i = 0, n = f.size();
  while (i < n) { if (f[i] != '%') { r.push_back(f[i++]); continue; }
    if (i + 1 < n && f[i + 1] == '%') { r.push_back('%'); i += 2; continue; }
    if (i + 1 < n && ref_digit(f[i + 1])) { size_t b = ++i; uint64_t k = 0; bool big = false; while (i < n && ref_digit(f[i])) { if (i - b > 15 && k > 100000000000000ull) big = true; k = k * 10 + (uint64_t)(unsigned char)(f[i] - '0'); i++; }
      bool hit = false; for (size_t j = 0; j < v.size(); j++) if (!big && k == j) { r += v[j]; hit = true; break; }
      if (!hit) { unfilled++; r.push_back('%'); r += f.substr(b, i - b); } continue; }
    r.push_back('%'); i++; }
  return r; }
