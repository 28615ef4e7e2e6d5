// F01: placeholders.  param(0) = mode
//  0: format of param(1) arbitrary bytes, param(2) string values of param(3) arbitrary bytes each
//  1: format "%ab%cd" with four arbitrary digits, param(1) one-character values (indices of two digits)
//  2: "%" + fixed digits (param(3): none, zeros, near 2^32, near 2^64) + param(1) arbitrary digits (long indices) and one byte that is none, 2 arbitrary values and param(2) further ones
#include "ref.hpp"
#include "Format.hxx"
//  3 many and long: param(1) placeholders (the first ones again at the end) between literals of param(2) bytes, values of param(3) bytes, one byte of each third literal and value arbitrary
extern "C" void sym_main() {
  std::string f; std::vector<std::string> v; unsigned mode = sym_param(0);
  if (mode == 0) { f = sym_string(sym_param(1)); for (unsigned i = 0; i < sym_param(2); i++) v.push_back(sym_string(sym_param(3))); }
  else if (mode == 1) { f = "%"; f += sym_string_in(2, "0123456789"); f += "%"; f += sym_string_in(2, "0123456789"); for (unsigned i = 0; i < sym_param(1); i++) v.push_back(std::string(1, (char)('A' + i))); }
  else if (mode == 3) { unsigned K = sym_param(1), L = sym_param(2), V = sym_param(3); for (unsigned k = 0; k < K + 3; k++) { unsigned i = k < K ? (k * 7 + 3) % K : k - K; std::string l = sym_long(L, k % 3 == 1 ? 1 : 0); for (char c : l) sym_assume((c != '%') & !ref_digit(c)); f += l; if (k % 5 == 4) f += "%%"; f += "%" + std::to_string(i); if (L == 0) f += "."; } for (unsigned i = 0; i < K; i++) v.push_back(sym_long(V, i % 3 == 0 && i < 40 ? 1 : 0)); }
  else { f = "%"; f += (const char *[]){"", "0000000000000000", "42949672", "184467440737095516"}[sym_param(3)]; f += sym_string_in(sym_param(1), "0123456789"); { std::string t = sym_string(1); sym_assume(!ref_digit(t[0])); f += t; } for (int i = 0; i < 2; i++) v.push_back(sym_string(1)); for (unsigned i = 0; i < sym_param(2); i++) v.push_back(std::string(1, (char)('A' + i))); }
  int un; SoDa::Format F(f); std::string e0 = ref_expand(f, std::vector<std::string>(), un); if (un) sym_cover("placeholder");
  sym_assert_eq(F.str(), e0, "text before any value");
  for (auto &s : v) F.addS(s);
  std::string e = ref_expand(f, v, un), r = F.str();
  sym_observe(r);
  sym_assert_eq(r, e, "text with the values in place");
  F.addS("beyond"); F.addC('z');
  std::vector<std::string> v2 = v; v2.push_back("beyond"); v2.push_back("z");
  sym_assert_eq(F.str(), ref_expand(f, v2, un), "text after further values");
  sym_cover("done");
}
