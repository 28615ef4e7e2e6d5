// F07: engineering notation.  param(0) = 0: every double of the 2^param(3) binary exponents from param(1) on (biased; 0 = the subnormals); 1: the 2^param(3) doubles around param(1)*10^(param(2)-400); 2: zero
// param(4) = significant digits, param(5) = width, param(6) = 1: negative, param(7) = 1: another radix character
#include "ref.hpp"
#include "Format.hxx"
static double p10(int n) { double r = 1; while (n-- > 0) r *= 10; return r; }   // exact up to 22
static double scaled(double v, int x) { while (x > 22) { v *= 1e22; x -= 22; } while (x < -22) { v /= 1e22; x += 22; } return x >= 0 ? v * p10(x) : v / p10(-x); }
extern "C" void sym_main() {
  uint64_t bits = 0; unsigned mode = sym_param(0), sig = sym_param(4), w = sym_param(5), k = 52; bool neg = sym_param(6);
  if (mode == 0) { bits = sym_param(1) << 52; k += sym_param(3); }
  else if (mode == 1) { double c = scaled((double)sym_param(1), (int)sym_param(2) - 400); memcpy(&bits, &c, 8); k = sym_param(3); bits -= 1ull << (k - 1); }
  if (mode != 2) { uint64_t d = __sym_draw((int)k, ""); if (mode == 0 && sym_param(1) == 0) sym_assume(d != 0); bits += d; }
  double av, v; memcpy(&av, &bits, 8); uint64_t vb = bits + ((uint64_t)neg << 63); memcpy(&v, &vb, 8);
  char old = SoDa::Format::separator, sep = sym_param(7) ? ',' : '.'; SoDa::Format::separator = sep;
  SoDa::Format F("%0"); F.addF(v, 'e', w, sig); std::string r = F.str(); SoDa::Format::separator = old; sym_observe(r);
  sym_assert(r.size() >= w, "at least the width"); while (!r.empty() && r.back() == ' ') r.pop_back();
  size_t p = 0, n = r.size(); auto dig = [&](size_t q) { return q < n && r[q] >= '0' && r[q] <= '9'; };
  if (mode == 2) { if (p < n && (r[p] == ' ' || r[p] == '-')) p++; sym_assert(p < n && r[p] == '0', "zero"); while (p < n && r[p] == '0') p++; if (p < n && r[p] == sep) { p++; while (p < n && r[p] == '0') p++; }
    sym_assert(p < n && r[p] == 'e', "exponent letter"); p++; if (p < n && (r[p] == '+' || r[p] == '-')) p++; sym_assert(dig(p), "exponent"); int x = 0; while (dig(p)) x = x * 10 + (r[p++] - '0'); sym_assert(x % 3 == 0 && p == n, "exponent"); sym_cover("zero"); return; }
  sym_assert(n && r[0] == (neg ? '-' : ' '), "sign position"); p = 1; size_t i0 = p; uint64_t I = 0; while (dig(p)) I = I * 10 + (unsigned)(r[p++] - '0'); unsigned iw = p - i0, fw = 0;
  sym_assert(iw >= 1 && iw <= 3 && r[i0] != '0', "integer part from 1 to 999");
  if (p < n && r[p] == sep) { p++; while (dig(p)) { I = I * 10 + (unsigned)(r[p++] - '0'); fw++; } sym_assert(fw > 0, "digits after the radix character"); sym_cover("fraction"); }
  sym_assert(p < n && r[p] == 'e', "exponent letter"); p++; sym_assert(p < n && (r[p] == '+' || r[p] == '-'), "exponent sign"); bool xn = r[p++] == '-'; sym_assert(dig(p), "exponent digits"); int x = 0; while (dig(p)) x = x * 10 + (r[p++] - '0'); if (xn) x = -x; sym_assert(p == n, "nothing after the exponent"); sym_assert(x % 3 == 0, "exponent is a multiple of three");
  int z = 0; if (iw > sig) { z = iw - sig; for (int q = 0; q < z; q++) { sym_assert(I % 10 == 0, "digits beyond the significant ones are zero"); I /= 10; } sym_assert(fw == 0, "no fraction"); sym_cover("padded"); } else sym_assert(iw + fw == sig, "number of digits");
  double q = scaled(av, -(x + z - (int)fw)), e = q - (double)I;   // in units of the last significant digit
  sym_assert(e <= 1.01, "printed value too small"); sym_assert(e >= -1.01, "printed value too large"); sym_cover("nonzero");
}
