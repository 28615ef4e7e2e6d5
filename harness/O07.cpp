// O07: option objects are independent.  param(0) = steps, param(1) = first step plus one (0: any).  Each step lets one of two programs' objects parse a line or register an option
#include "opt.hpp"
extern "C" void sym_main() {
  Rig *R[2]; Ref E[2]; bool failed[2] = {false, false}; R[0] = new Rig(); R[1] = new Rig(); bool extra[2] = {false, false}; int ex[2] = {0, 0}; bool pres[2] = {false, false};
  for (unsigned k = 0; k < sym_param(0); k++) { unsigned op = k == 0 && sym_param(1) ? sym_param(1) - 1 : sym_choice(8); int w = op % 2; Rig &r = *R[w]; std::vector<std::string> ts;
    switch (op / 2) {
    case 0: ts.push_back(token(10)); ts.push_back(token(13)); break;
    case 1: ts.push_back(sym_string(2)); break;
    case 2: ts.push_back("--wi"); ts.push_back("-" + sym_string_in(1, "0123456789a")); ts.push_back("--ve"); ts.push_back("x"); break;
    default: if (!extra[w]) { r.o.add<int>(&ex[w], "extra", 'x', 3 + w); extra[w] = true; ex[w] = 3 + w; sym_cover("registered"); } { std::list<std::string> l; l.push_back("-x"); l.push_back("4"); sym_assert(r.o.parse(l), "a newly registered option"); sym_assert(ex[w] == 4, "its value"); pres[w] = true; ex[1 - w] += 0; } break; }
    if (!ts.empty()) { bool isx = false; for (auto &t : ts) isx |= t.size() == 2 && t[0] == '-' && t[1] == 'x'; sym_assume(!isx); bool e = E[w].parse(ts), ok = r.o.parse(to_list(ts)); sym_assert(ok == e, "result of the parse"); if (!ok) { failed[w] = true; sym_cover("refused"); } else sym_cover("accepted"); }
    for (int j = 0; j < 2; j++) if (!failed[j]) { compare_values(*R[j], E[j].st); compare_pos(*R[j], E[j].st); compare_pres(*R[j], E[j].st); } 
    for (int j = 0; j < 2; j++) { sym_assert(R[j]->o.isPresent('x') == pres[j] && R[j]->o.isPresent("extra") == pres[j], "registered with its own object only"); if (!extra[j]) sym_assert(ex[j] == 0, "the other program's variable"); } }
  observe(*R[0], failed[0]); observe(*R[1], failed[1]); delete R[0]; if (!failed[1]) { compare_values(*R[1], E[1].st); compare_pos(*R[1], E[1].st); compare_pres(*R[1], E[1].st); } delete R[1]; sym_cover("done");
}
