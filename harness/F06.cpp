// F06: addF f/s/g for every double; nan and inf for every letter.  param(0): 0 f 1 s 2 g 3 NaN/inf with any letter; param(1) = width; param(2) = significant digits; param(3): separator 0 default 1 arbitrary
#include "ref.hpp"
#include "Format.hxx"
#include <iomanip>
extern "C" void sym_main() {
  // mode 3: the two infinities and every NaN
  uint64_t bits; if (sym_param(0) == 3) { unsigned k = sym_choice(3); bits = k == 0 ? sym_u64() : k == 1 ? 0x7ffull << 52 : 0xfffull << 52; if (k == 0) sym_assume(bits & 0xfffffffffffffull); } else bits = sym_u64(); double v; memcpy(&v, &bits, 8); unsigned w = sym_param(1), sig = sym_param(2); uint64_t ex = (bits >> 52) & 2047;
  char old = SoDa::Format::separator, sep = '.'; if (sym_param(3)) { sep = (char)sym_u8(); sym_assume(sep != 0); SoDa::Format::separator = sep; }
  SoDa::Format F("%0"); std::string ref; 
  if (sym_param(0) == 3) { sym_assume(ex == 2047); char fmt = (char)sym_u8(); F.addF(v, fmt, w, sig); std::string r = F.str(); sym_observe(r);
    bool nan = (bits & 0xfffffffffffffull) != 0; std::string t = r; while (!t.empty() && t.back() == ' ') t.pop_back();
    if (nan) { sym_assert_eq(t, "nan", "NaN text"); sym_cover("nan"); } else if (bits >> 63) { sym_assert(sym_eq(t, "inf") || sym_eq(t, "-inf"), "negative infinity text"); } else { sym_assert_eq(t, "inf", "infinity text"); sym_cover("inf"); }
    sym_assert(r.size() >= w, "padded to the width"); if (w) sym_assert(r.size() == (w > 3 ? w : t.size()), "padded no further"); }
  else { sym_assume(ex != 2047); char fmt = "fsg"[sym_param(0)]; F.addF(v, fmt, w, sig); std::string r = F.str();
    std::ostringstream o; if (fmt == 'f') o << std::fixed; if (fmt == 's') o << std::scientific; o << std::setprecision(sig) << v; ref = o.str();
    for (auto &c : ref) if (c == '.') { c = sep; break; }
    size_t L = ref.size(), want = L > w ? L : w, most = w ? want : (L > sig + 4 ? L : sig + 4);
    sym_assert(r.size() >= want, "field is at least as wide as asked"); sym_assert(r.size() <= most, "field is no wider than needed");
    sym_assert_eq(r.substr(0, L), ref, "text of the stream"); sym_assert_eq(r.substr(L), std::string(r.size() - L, ' '), "followed by blanks"); sym_cover("finite"); }
  SoDa::Format::separator = old;
}
