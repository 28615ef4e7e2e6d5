// O03: a string parses like its token list.  param(0): 3 a long string: param(1) options and arguments of param(2) bytes (0: the last one of 300); 0 the string is param(1) arbitrary bytes; 1 "-s " / "-v " style prefix then param(1) arbitrary bytes; 2 argc/argv with tokens of the given lengths
#include "opt.hpp"
static std::vector<std::string> toks(const std::string &s) { std::vector<std::string> r; std::string c; bool q = false;
  for (char x : s) { bool sp = x == ' ' || ((unsigned char)x >= 9 && (unsigned char)x <= 13); if (x == '"') { if (q) { r.push_back(c); c.clear(); } q = !q; } else if (sp && !q) { if (!c.empty()) r.push_back(c); c.clear(); } else c.push_back(x); }
  if (!c.empty()) r.push_back(c); return r; }
static void same(Rig &A, Rig &B, bool a, bool b) { observe(A, a); sym_assert(a == b, "same result"); State e; e.p = B.p; e.q = B.q; e.i = B.i; e.u = B.u; e.s = B.s; e.d = B.d; e.v = B.v; e.w = B.w; e.pos = B.o.getPosArgs(); for (int k = 0; k < 8; k++) e.pres[k] = B.o.isPresent(ABS[k]); compare_values(A, e); compare_pos(A, e); compare_pres(A, e); if (a) sym_cover("accepted"); if (e.pos.size() > 1) sym_cover("several tokens"); }
extern "C" void sym_main() {
  unsigned m = sym_param(0); Rig A, B;
  if (m < 2) { std::string s; if (m == 1) s = "-v \"a\t"; s += sym_string(sym_param(1)); std::vector<std::string> t = toks(s); bool b = B.o.parse(to_list(t)), a = A.o.parse(s); same(A, B, a, b); if (s.find('"') != std::string::npos) sym_cover("quoted"); }
  else if (m == 3) { std::vector<std::string> t; long_tokens(t, sym_param(1), sym_param(2), true); t.push_back("two words\tand a long quoted text"); std::string s; for (size_t k = 0; k < t.size(); k++) { bool q = t[k].find(' ') != std::string::npos || k % 6 == 0; s += q ? "\"" + t[k] + "\"" : t[k]; s += k % 5 == 4 ? "\n  " : " "; } bool b = B.o.parse(to_list(t)), a = A.o.parse(s); same(A, B, a, b); sym_cover("quoted"); }
  else { std::vector<std::string> t; std::vector<char *> av; std::string prog = "prog"; av.push_back(&prog[0]); for (int k = 1; sym_param(k) != 99; k++) if (sym_param(k) == 97) next_tokens(t, k); else { std::string x = token(sym_param(k)); bool nul = false; for (char c : x) nul |= c == 0; sym_assume(!nul); t.push_back(x); }
    for (auto &x : t) av.push_back(&x[0]); int argc = (int)av.size(); av.push_back(nullptr); bool b = B.o.parse(to_list(t)), a = A.o.parse(argc, av.data()); same(A, B, a, b); sym_cover("argv"); }
}
