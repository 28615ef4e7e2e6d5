// F04: addU for every 64-bit value.  param(0): format letter class 0 x/h 1 X/H 2 o/O 3 d/D 4 any other letter; param(1): separator; param(2): width
#include "ref.hpp"
#include "Format.hxx"
extern "C" void sym_main() {
  uint64_t v = sym_u64(); unsigned cls = sym_param(0), w = sym_param(2); char sep = 0, fmt; unsigned g = 4;
  if (cls == 4) { fmt = (char)sym_u8(); bool other = true; for (const char *p = "xXhHoO"; *p; p++) other &= fmt != *p; sym_assume(other); } else { static const char *L[4] = {"xh", "XH", "oO", "dD"}; fmt = L[cls][sym_choice(2)]; }
  if (sym_param(1)) { sep = (char)sym_u8(); sym_assume(sep != 0); g = sym_u32(); sym_assume(g >= 1); }
  SoDa::Format F("<%0>"); if (sym_param(1)) F.addU(v, fmt, w, sep, g); else F.addU(v, fmt, w);
  std::string r = F.str(); sym_observe(r);
  std::string e, d;
  if (cls <= 1) { int k = 1; while (k < 16 && (v >> (4 * k)) != 0) k++; for (int i = k - 1; i >= 0; i--) { int x = (int)((v >> (4 * i)) & 15); d.push_back((char)('0' + x + (x > 9 ? (cls == 1 ? 7 : 39) : 0))); }
    d = ref_left(d, '0', w); if (sep) d = ref_group(d, sep, g); e = "0x" + d; }
  else if (cls == 2) { // a leading 0 (the zero itself is just 0), zero filled to width
    int k = 1; while (k < 22 && (v >> (3 * k)) != 0) k++; for (int i = k - 1; i >= 0; i--) d.push_back((char)('0' + ((v >> (3 * i)) & 7)));
    bool zero = v == 0; size_t need = zero ? 1 : d.size() + 1; size_t len = need > w ? need : w; std::string all = ref_left(d, '0', len);      // all digits, the leading 0 included
    if (sep) { std::string body = all.substr(1); std::string gb = ref_group(body, sep, g); e = "0" + gb; } else e = all; }
  else { d = ref_dec(v); if (sep) d = ref_group(d, sep, g); e = ref_left(d, ' ', w); }
  sym_assert_eq(r, "<" + e + ">", "unsigned integer field");
  if (d.size() > w) sym_cover("wider than the field"); else sym_cover("filled"); if (sep && e.size() > d.size() + 2) sym_cover("grouped");
}
