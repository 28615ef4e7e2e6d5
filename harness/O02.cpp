// O02: conversion of one value of param(1) arbitrary bytes.  param(0): 0 int 1 unsigned 2 bool 3 string 4 vector<int> 5 vector<string> 6 vector<bool> 7 short 8 long 9 unsigned long; param(2): acceptance test 0 none 1 arbitrary verdict 2 a bound; param(3): 1 restricts the bytes to digits, signs and a letter; 2 letters with three arbitrary bytes; 3 zeros followed by three digits; 4 blanks followed by two digits, signs or letters
#include "ref.hpp"
#include "Options.hxx"
static bool num(const std::string &t, bool uns, uint64_t posmax, uint64_t negmax, uint64_t &out) { size_t k = 0, n = t.size(); while (k < n && (t[k] == ' ' || ((unsigned char)t[k] >= 9 && (unsigned char)t[k] <= 13))) k++;
  bool neg = false; if (k < n && (t[k] == '-' || t[k] == '+')) { neg = t[k] == '-'; k++; } if (k >= n || !ref_digit(t[k])) return false;
  uint64_t v = 0; bool big = false; while (k < n && ref_digit(t[k])) { unsigned d = (unsigned char)t[k] - '0'; if (v > 0x1999999999999999ull || (v == 0x1999999999999999ull && d > 5)) big = true; v = v * 10 + d; k++; }
  if (big || v > (uns ? posmax : neg ? negmax : posmax)) return false; out = neg ? 0 - v : v; return true; }
static bool toBool(const std::string &t, bool &b) { if (t.size() && (t[0] == 'T' || t[0] == 't')) { b = true; return true; } if (t.size() && (t[0] == 'F' || t[0] == 'f')) { b = false; return true; } uint64_t x; if (!num(t, false, 0x7fffffff, 0x80000000ull, x)) return false; b = x != 0; return true; }
static bool verdict; static int mode; static int calls;
template <class T> static void scalar(const std::string &t, T init, bool conv, T exp) {
  T val; SoDa::Options o; T seen = T(); auto test = [&](T x) { calls++; seen = x; return mode == 1 ? verdict : mode == 2 ? !(x == exp) : true; };
  if (mode) o.add<T>(&val, "opt", 'o', "doc", test, "err"); else o.add<T>(&val, "opt", 'o'); 
  std::list<std::string> ts; ts.push_back("-o"); ts.push_back(t); bool ok = o.parse(ts); bool want = conv && (mode == 1 ? verdict : mode == 0);
  sym_observe(ok); sym_assert(ok == want, "result of the parse"); if (ok) { sym_assert(val == exp, "stored value"); sym_cover("stored"); } else sym_cover("refused"); 
  if (mode && conv) sym_assert(calls >= 1 && seen == exp, "the acceptance test sees the value"); sym_assert(o.isPresent('o') || !ok, "present"); }
template <class T> static void vec(const std::string &t, bool conv, T exp) {
  std::vector<T> val; SoDa::Options o; auto test = [&](T x) { return mode == 1 ? verdict : mode == 2 ? !(x == exp) : true; };
  if (mode) o.addV<T>(&val, "opt", 'o', "doc", test, "err"); else o.addV<T>(&val, "opt", 'o');
  std::list<std::string> ts; for (int k = 0; k < 2; k++) { ts.push_back("--opt"); ts.push_back(t); }
  if (t.size() >= 2 && t[0] == '-') sym_assume(std::is_signed<T>::value);           // an option-like token, see O01
  bool ok = o.parse(ts), want = conv && (mode == 1 ? verdict : mode == 0); sym_observe(ok); sym_assert(ok == want, "result of the parse");
  if (ok) { sym_assert(val.size() == 2, "one element per occurrence"); for (auto x : val) sym_assert(x == exp, "stored element"); sym_cover("stored"); } else { sym_assert(val.empty(), "nothing appended"); sym_cover("refused"); } }
extern "C" void sym_main() {
  std::string t = sym_param(3) == 2 ? sym_long(sym_param(1), 3) : sym_param(3) == 3 ? std::string(sym_param(1), '0') + sym_string_in(3, "0123456789") : sym_param(3) == 4 ? std::string(sym_param(1), ' ') + sym_string_in(2, "0123456789-+x") : sym_param(3) ? sym_string_in(sym_param(1), "0123456789-+x") : sym_string(sym_param(1)); mode = sym_param(2); verdict = mode == 1 ? sym_bool() : true; calls = 0; uint64_t x = 0; bool b = false, c;
  switch (sym_param(0)) {
  case 0: c = num(t, false, 0x7fffffff, 0x80000000ull, x); scalar<int>(t, 0, c, (int)x); break;
  case 1: c = num(t, true, 0xffffffffull, 0, x); scalar<unsigned>(t, 0, c, (unsigned)x); break;
  case 2: c = toBool(t, b); scalar<bool>(t, false, c, b); break;
  case 3: scalar<std::string>(t, "", true, t); break;
  case 4: c = num(t, false, 0x7fffffff, 0x80000000ull, x); vec<int>(t, c, (int)x); break;
  case 5: vec<std::string>(t, true, t); break;
  case 6: c = toBool(t, b); vec<bool>(t, c, b); break;
  case 7: c = num(t, false, 0x7fff, 0x8000, x); scalar<short>(t, 0, c, (short)x); break;
  case 8: c = num(t, false, 0x7fffffffffffffffull, 0x8000000000000000ull, x); scalar<long>(t, 0, c, (long)x); break;
  default: c = num(t, true, ~0ull, 0, x); scalar<unsigned long>(t, 0, c, (unsigned long)x); }
}
