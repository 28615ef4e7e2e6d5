// F09: format objects are independent.  param(0) = steps, param(1) = length of the second format string (arbitrary bytes), param(2) = first operation plus one (0: any), param(3) = n: the second one is the first one with one byte of its n + 12 replaced by an arbitrary one (n - 1 bytes of text in the middle)
#include "ref.hpp"
#include "Format.hxx"
struct One { SoDa::Format *f; std::string s; std::vector<std::string> v; One() : f(0) {} };
static std::string streamed(const SoDa::Format &f) { std::ostringstream o; o << f; return o.str(); }
static void same(One *o, int n) { for (int k = 0; k < n; k++) if (o[k].f) { int un; std::string e = ref_expand(o[k].s, o[k].v, un); sym_assert_eq(o[k].f->str(), e, "each object has the text of its own values"); sym_assert_eq(streamed(*o[k].f), e, "streamed text"); bool threw = false; try { o[k].f->str(true); } catch (SoDa::Format::BadFormat &) { threw = true; } sym_assert(threw == (un != 0), "completeness of its own values"); } }
extern "C" void sym_main() {
  One o[4]; o[0].s = "%0a%1b%0%2"; if (sym_param(3)) o[0].s = "%0a" + std::string(sym_param(3) - 1, 'l') + "%1b%0%2"; { std::string t = o[0].s; o[0].f = new SoDa::Format(t); t[1] = '7'; t += "x"; } if (sym_param(3)) { o[1].s = o[0].s; unsigned n0 = o[1].s.size(), at = sym_choice(7); o[1].s[at < 3 ? at : n0 - 7 + at] = (char)sym_u8(); } else o[1].s = sym_string(sym_param(1)); o[1].f = new SoDa::Format(o[1].s); int n = 2;
  for (unsigned k = 0; k < sym_param(0); k++) { unsigned op = k == 0 && sym_param(2) ? sym_param(2) - 1 : sym_choice(7); One &x = o[op % 2]; 
    switch (op) {
    case 0: case 1: { std::string t = sym_string(1); x.f->addS(t); x.v.push_back(t); t[0] = 'z'; t += "tail"; break; }
    case 2: case 3: x.f->reset(); x.v.clear(); break;
    case 4: if (n < 4) { o[n] = o[0]; o[n].f = new SoDa::Format(*o[0].f); n++; sym_cover("copied"); } break;
    case 5: if (n > 2) { std::string t = "c" + sym_string(1); o[2].f->addS(t); o[2].v.push_back(t); sym_cover("copy filled"); } else { std::string t = "b"; x.f->addC('b'); x.v.push_back(t); } break;
    default: if (n > 2) { delete o[0].f; o[0].f = o[2].f; o[0].v = o[2].v; o[2] = o[n - 1]; n--; if (n == 2) o[2].f = 0; sym_cover("original destroyed"); } else { *o[1].f = *o[0].f; o[1].s = o[0].s; o[1].v = o[0].v; sym_cover("assigned"); } }
    same(o, n); }
  for (int k = 0; k < n; k++) { sym_observe(o[k].f->str()); delete o[k].f; o[k].f = 0; same(o, n); } sym_cover("done");
}
