// F03: addI for every 32-bit value.  param(0): 0 no separator, 1 arbitrary separator; param(1): 0 default fill, 1 arbitrary fill; param(2): width
#include "ref.hpp"
#include "Format.hxx"
extern "C" void sym_main() {
  int v = (int)sym_u32(); char sep = 0, fill = 0; unsigned w = sym_param(2);
  if (sym_param(0)) { sep = (char)sym_u8(); sym_assume(sep != 0); } if (sym_param(1)) { fill = (char)sym_u8(); sym_assume(fill != 0); }
  SoDa::Format F("<%0>"); 
  if (sym_param(1)) F.addI(v, w, sep, fill); else if (sym_param(0)) F.addI(v, w, sep); else F.addI(v, w);
  std::string r = F.str(); sym_observe(r);
  bool neg = v < 0; uint32_t mag = neg ? 0u - (uint32_t)v : (uint32_t)v;
  std::string d = ref_dec32(mag); if (sep) d = ref_group(d, sep, 3); if (neg) d = "-" + d;
  sym_assert_eq(r, "<" + ref_left(d, fill ? fill : ' ', w) + ">", "signed integer field");
  sym_cover(neg ? "negative" : "non-negative"); if (d.size() > w) sym_cover("wider than the field"); else sym_cover("fits");
}
