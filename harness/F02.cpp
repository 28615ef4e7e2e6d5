// F02: inspection and reuse.  param(0) = length of the format (100 + k: %0 to %k with an arbitrary byte after each), param(1) = values before reset, param(2) = values after it
#include "ref.hpp"
#include "Format.hxx"
static std::string streamed(const SoDa::Format &f) { std::ostringstream o; o << f; return o.str(); }
static void look(const SoDa::Format &F, const std::string &e, int un, const char *m) {
  sym_assert_eq(F.str(), e, m); sym_assert_eq(streamed(F), e, "streamed text"); sym_assert_eq(F.str(false), e, "text asked for again");
  bool threw = false; std::string t; 
  try { t = F.str(true); } catch (SoDa::Format::BadFormat &x) { threw = true; }
  sym_assert(threw == (un != 0), "the completeness check throws exactly when a placeholder is unfilled");
  if (!threw) sym_assert_eq(t, e, "checked text"); else sym_cover("unfilled");
  sym_assert_eq(F.str(), e, "text after the checks"); }
static void add(SoDa::Format &F, std::vector<std::string> &v, int i) { switch (i % 4) {
  case 0: v.push_back(sym_string(1)); F.addS(v.back()); break; case 1: { v.push_back(sym_string(1)); F.addC(v.back()[0]); break; }
  case 2: { bool b = sym_bool(); v.push_back(b ? "T" : "F"); F.addB(b); break; } default: v.push_back("7"); F.addI(7); } }
extern "C" void sym_main() {
  std::string f; if (sym_param(0) < 100) f = sym_string(sym_param(0)); else for (unsigned k = 0; k <= sym_param(0) - 100; k++) { char c = k < 4 ? (char)sym_u8() : '-'; sym_assume((c != '%') & !ref_digit(c)); f += "%" + std::to_string(k); f += c; } int un; SoDa::Format F(f); std::vector<std::string> v; int i = 0;
  look(F, ref_expand(f, v, un), un, "fresh text");
  for (unsigned k = 0; k < sym_param(1); k++) { add(F, v, i++); }
  look(F, ref_expand(f, v, un), un, "text after values");
  F.reset(); v.clear();
  look(F, ref_expand(f, v, un), un, "text after reset");
  for (unsigned k = 0; k < sym_param(2); k++) { add(F, v, i++); look(F, ref_expand(f, v, un), un, "text after reuse"); }
  if (un == 0) sym_cover("all filled");
  SoDa::Format &q = F.reset(); sym_assert(&q == &F, "reset returns the object"); v.clear(); sym_assert_eq(F.str(), ref_expand(f, v, un), "second reset");
  sym_observe(F.str()); sym_cover("done");
}
