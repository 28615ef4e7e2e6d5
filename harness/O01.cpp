// O01: routing of tokens.  The parameters are the kinds of the tokens (see token() in opt.hpp), 99 ends the list; or 96 and the number of options of an object with many, two of which are named on the line
#include "opt.hpp"
static void many(unsigned n) {      // options of four kinds in turn; many names start alike
  SoDa::Options o; std::vector<std::string> names, ss(n); std::vector<int> is(n, 0); std::vector<char> bs(n, 0); std::vector<std::vector<int>> vs(n); std::string abs; bool *flags = new bool[n];
  for (unsigned k = 0; k < n; k++) { names.push_back(letters(1 + k % 5) + std::string(k % 3, '-') + std::to_string(k / 5)); abs.push_back((char)(k < 93 ? 33 + (k + 13) % 93 : 33 + 128 + k - 93)); flags[k] = false; }
  for (unsigned k = 0; k < n; k++) if (abs[k] == '-' || abs[k] == 'h') abs[k] = (char)(200 + k % 3 + (abs[k] == '-' ? 40 : 0)); 
  for (unsigned k = 0; k < n; k++) switch (k % 4) { case 0: o.addP(&flags[k], names[k], abs[k]); break; case 1: o.add<int>(&is[k], names[k], abs[k], (int)k); break; case 2: o.add<std::string>(&ss[k], names[k], abs[k], std::string("d" + std::to_string(k)), std::string("doc")); break; default: o.addV<int>(&vs[k], names[k], abs[k]); }
  std::string v1 = sym_string_in(1, "0123456789"), v2 = sym_string_in(1, "0123456789"); unsigned a = sym_choice(n), b = sym_choice(n); std::list<std::string> t; 
  t.push_back("--" + names[a]); if (a % 4) t.push_back(v1); t.push_back(std::string("-") + abs[b]); if (b % 4) t.push_back(v2); t.push_back("rest"); bool ok = o.parse(t); sym_observe(ok); sym_assert(ok, "many options: accepted"); 
  for (unsigned k = 0; k < n; k++) { bool hit = k == a || k == b; std::string lastv = k == b ? v2 : v1; sym_assert(o.isPresent(abs[k]) == hit && o.isPresent(names[k]) == hit, "many options: presence");
    switch (k % 4) { case 0: sym_assert(flags[k] == hit, "many options: flag"); break; case 1: sym_assert(is[k] == (hit ? lastv[0] - '0' : (int)k), "many options: integer"); break; case 2: sym_assert_eq(ss[k], hit ? lastv : "d" + std::to_string(k), "many options: string"); break;
      default: sym_assert(vs[k].size() == (size_t)(k == a) + (k == b), "many options: vector length"); if (vs[k].size()) sym_assert(vs[k].back() == lastv[0] - '0' && vs[k].front() == (k == a ? v1 : v2)[0] - '0', "many options: vector element"); } }
  sym_assert(o.numPosArgs() == 1, "many options: positional"); sym_assert_eq(o.getPosArg(0), "rest", "many options: positional"); delete[] flags; sym_cover("accepted"); }
extern "C" void sym_main() {
  if (sym_param(0) == 96) { many(sym_param(1)); return; }
  std::vector<std::string> ts; for (int k = 0; sym_param(k) != 99; k++) next_tokens(ts, k);
  Rig R; Ref E; bool e = E.parse(ts), ok = R.o.parse(to_list(ts)); observe(R, ok);
  sym_assert(ok == e, "result of the parse");
  if (ok) { compare_values(R, E.st); compare_pos(R, E.st); sym_cover("accepted"); if (!E.st.pos.empty()) sym_cover("positional"); if (E.st.w.size()) sym_cover("vector"); } else sym_cover("refused");
}
