// U01: squashSpaces over all strings of param(0) bytes; param(1) != 0: param(0) bytes of letters in groups of param(1) with blanks between and 4 arbitrary bytes
#include "ref.hpp"
#include "Utils.hxx"
extern "C" void sym_main() {
  std::string s = sym_param(1) ? letters(sym_param(0)) : sym_string(sym_param(0)); if (unsigned g = sym_param(1)) for (size_t i = g; i + 1 < s.size(); i += g + 1 + i % 3) for (size_t j = 0; j <= i % 3 && i + j + 1 < s.size(); j++) s[i + j] = ' '; if (sym_param(1)) sym_put(s, 4); std::string copy = s;
  std::string exp = ref_squash(s), r = SoDa::squashSpaces(s);
  sym_observe(r);
  sym_assert_eq(r, exp, "squashed text");
  sym_assert_eq(SoDa::squashSpaces(r), r, "squashing twice changes nothing more");
  sym_assert_eq(s, copy, "argument unchanged");
  sym_cover("squashed"); if (r.size() < s.size()) sym_cover("shortened"); if (s.size() && r.empty()) sym_cover("all blank");
}
