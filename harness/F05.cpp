// F05: addS / addC / addB.  param(0) = string length, param(1) = mode (0 addS, 1 addC, 2 addB, 3 addS of a long string with 3 arbitrary bytes to width param(2), left justified if param(3))
#include "ref.hpp"
#include "Format.hxx"
extern "C" void sym_main() {
  SoDa::Format F("<%0|%0>"); std::string e; unsigned n = sym_param(0), mode = sym_param(1);
  if (mode == 0) { std::string s = sym_string(n); unsigned range = sym_param(2); int w = (int)sym_choice(2 * range + 1) - (int)range; 
    if (w == 0 && sym_choice(2)) F.addS(s); else F.addS(s, w);
    e = w >= 0 ? ref_left(s, ' ', w) : ref_right(s, ' ', -w); if (w < 0) sym_cover("left justified"); if (w > 0 && (size_t)w > n) sym_cover("right justified"); }
  else if (mode == 3) { std::string s = sym_long(n, 3); int w = (int)sym_param(2); if (sym_param(3)) w = -w; F.addS(s, w); e = w >= 0 ? (s.size() < (size_t)w ? std::string(w - s.size(), ' ') : std::string()) + s : s + (s.size() < (size_t)-w ? std::string(-w - s.size(), ' ') : std::string()); }
  else if (mode == 1) { char c = (char)sym_u8(); F.addC(c); e = std::string(1, c); sym_cover("character"); }
  else { bool b = sym_bool(); F.addB(b); e = b ? "T" : "F"; sym_cover("boolean"); }
  std::string r = F.str(); sym_observe(r); sym_assert_eq(r, "<" + e + "|" + e + ">", "inserted text");
}
