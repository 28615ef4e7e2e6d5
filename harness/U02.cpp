// U02: split / splitVec.  param(0) = length of the text, param(1) = number of delimiter characters; param(2) != 0: the text is letters in groups of param(2) with a comma after each and param(3) (0: three) arbitrary bytes, the delimiters are param(1) - 1 concrete ones and then an arbitrary one
#include "ref.hpp"
#include "Utils.hxx"
extern "C" void sym_main() {
  std::string s, d; if (unsigned g = sym_param(2)) { s = letters(sym_param(0)); for (size_t i = g; i < s.size(); i += g + 1) s[i] = ','; sym_put(s, sym_param(3) ? sym_param(3) : 3); for (unsigned k = 1; k < sym_param(1); k++) d.push_back((",;/|!#")[(k - 1) % 6]); d += sym_string(1); } else { s = sym_string(sym_param(0)); d = sym_string(sym_param(1)); } bool noempty = sym_choice(2);
  std::vector<std::string> exp; std::string cur; 
  for (char c : ref_squash(s)) { bool isd = false; for (char x : d) if (c == x) { isd = true; break; } if (isd) { if (!(noempty && cur.empty())) exp.push_back(cur); cur.clear(); } else cur.push_back(c); }
  if (!cur.empty()) exp.push_back(cur);
  std::list<std::string> l = SoDa::split(s, d, noempty); std::vector<std::string> v = SoDa::splitVec(s, d, noempty);
  sym_observe(l.size()); for (auto &x : l) sym_observe(x);
  sym_assert(l.size() == exp.size(), "number of pieces"); size_t i = 0; for (auto &x : l) sym_assert_eq(x, exp[i++], "piece of the list form");
  sym_assert(v.size() == exp.size(), "number of pieces, vector form"); for (i = 0; i < v.size() && i < exp.size(); i++) sym_assert_eq(v[i], exp[i], "piece of the vector form");
  if (noempty) sym_cover("empties dropped"); else sym_cover("empties kept"); if (exp.size() >= 2) sym_cover("two pieces");
}
