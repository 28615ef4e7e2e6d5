// O05: histories of parses on one object.  The parameters are token kinds (see opt.hpp); 98 starts the next parse, 99 ends; or 95 and the numbers of parses, options and arguments in each, and bytes of a text
#include "opt.hpp"
extern "C" void sym_main() {
  std::vector<std::vector<std::string>> hs(1); if (sym_param(0) == 95) for (unsigned i = 0; i < sym_param(1); i++) { if (i) hs.emplace_back(); long_tokens(hs.back(), sym_param(2), sym_param(3), false); if (i < 1) hs.back().push_back(token(2)); } else for (int k = 0; sym_param(k) != 99; k++) if (sym_param(k) == 98) hs.emplace_back(); else next_tokens(hs.back(), k);
  Rig R; State acc = Ref().st; bool named[8] = {0}; bool anyfail = false;
  for (int k = 0; k < 8; k++) sym_assert(!R.o.isPresent(ABS[k]), "absent at first");
  for (auto &ts : hs) { Ref E; E.st.pres[0] = false; bool e = E.parse(ts), ok = R.o.parse(to_list(ts)); observe(R, ok); sym_assert(ok == e, "each parse stands on its own"); if (!ok) { anyfail = true; sym_cover("refused"); }
    for (int k = 0; k < 8; k++) if (E.st.pres[k]) { named[k] = true; if (e) acc.pres[k] = true; } 
    for (int k = 0; k < 8; k++) { bool p = R.o.isPresent(ABS[k]); sym_assert(p == R.o.isPresent(std::string(LONGS[k])), "both names agree"); if (acc.pres[k]) { sym_assert(p, "named on an accepted line"); sym_cover("present"); }
      bool mentioned = named[k]; if (anyfail) for (auto &l : hs) for (auto &t : l) { int sw = ref_switch(t); if (sw && ref_find(t, sw) == k) mentioned = true; } if (!mentioned) sym_assert(!p, "never named"); }
    if (!named[K_I] && !anyfail) sym_assert(R.i == -7, "integer default"); if (!named[K_U] && !anyfail) sym_assert(R.u == 9, "unsigned default"); if (!named[K_D] && !anyfail) sym_assert_eq(R.d, "dflt", "string default"); if (!named[K_S] && !anyfail) sym_assert(R.s.empty(), "zero value");
    if (!anyfail) sym_assert(R.p == named[K_P] && R.q == named[K_Q], "presence flags"); if (!named[K_V] && !anyfail) sym_assert(R.v.empty(), "vector untouched"); }
  int n = R.o.numPosArgs(); sym_assert(n == (int)R.o.getPosArgs().size(), "count"); sym_assert(!R.o.isPresent("nope") && !R.o.isPresent('?'), "unknown names are absent");
  int idx; if (n && sym_choice(2)) idx = (int)sym_choice(n); else { idx = (int)sym_u32(); sym_assume(idx < 0 || idx >= n); } std::string g = R.o.getPosArg(idx); if (idx < 0 || idx >= n) { sym_assert(g.empty(), "outside the range"); sym_cover("outside"); } else sym_assert_eq(g, R.o.getPosArgs()[idx], "inside the range");
}
