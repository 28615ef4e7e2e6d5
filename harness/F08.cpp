// F08: the extension template.  param(0) = which call, param(1) = width
#include "ref.hpp"
#include "Format.hxx"
struct My : public SoDa::Format_ext<My> { My(const std::string &f) : SoDa::Format_ext<My>(f, this), own(0) {} int own; My &addMine(const std::string &s) { own++; SoDa::Format::addS("[" + s + "]"); return *this; } };
extern "C" void sym_main() {
  My m("%0,%1;%2"); SoDa::Format p("%0,%1;%2"); unsigned w = sym_param(1); My *q = 0;
  switch (sym_param(0)) {
  case 0: { int v = (int)sym_u32(); q = &m.addI(v); p.addI(v); q = &q->addI(v, w); p.addI(v, w); break; }
  case 1: { int v = (int)sym_u32(); char s = (char)sym_u8(), f = (char)sym_u8(); q = &m.addI(v, w, s); p.addI(v, w, s); q = &q->addI(v, w, s, f); p.addI(v, w, s, f); break; }
  case 2: { uint64_t v = sym_u64(); q = &m.addU(v); p.addU(v); break; }
  case 3: { uint64_t v = sym_u64(); char f = "xXod"[sym_choice(4)]; q = &m.addU(v, f, w); p.addU(v, f, w); break; }
  case 4: { uint64_t v = sym_u64(); char f = "xXod"[sym_choice(4)]; char s = (char)sym_u8(); q = &m.addU(v, f, w, s); p.addU(v, f, w, s); break; }
  case 5: { uint64_t v = sym_u64(); char f = "xXod"[sym_choice(4)]; unsigned g = 1 + sym_choice(5); q = &m.addU(v, f, w, '_', g); p.addU(v, f, w, '_', g); break; }
  case 6: { uint64_t b = sym_u64(); double v; memcpy(&v, &b, 8); q = &m.addF(v); p.addF(v); break; }
  case 7: { uint64_t b = sym_u64(); double v; memcpy(&v, &b, 8); char f = "fsg"[sym_choice(3)]; q = &m.addF(v, f, w, 3); p.addF(v, f, w, 3); q = &q->addF(v, f, w); p.addF(v, f, w); break; }
  case 8: { double v = (double)(int)sym_choice(5) * 1234.5 - 1300; q = &m.addF(v, 'e', w, 4); p.addF(v, 'e', w, 4); break; }
  case 9: { std::string s = sym_string(3); q = &m.addS(s); p.addS(s); q = &q->addS(s, (int)w); p.addS(s, (int)w); q = &q->addS(s, -(int)w); p.addS(s, -(int)w); break; }
  case 10: { char c = (char)sym_u8(); q = &m.addC(c); p.addC(c); break; }
  default: { bool b = sym_bool(); q = &m.addB(b); p.addB(b); } }
  sym_assert(q == &m, "the call returns the user's own object");
  sym_assert_eq(m.str(), p.str(), "same text as the plain format");
  q->addMine("u"); p.addS("[u]"); sym_assert(m.own == 1, "user-defined call in the chain"); sym_assert_eq(m.str(), p.str(), "same text after a user-defined call");
  if (sym_param(0) != 6 && sym_param(0) != 7) sym_observe(m.str());
  sym_cover("done");
}
