// O04: key=value lists.  param(0): 0 the whole string is param(1) arbitrary bytes (only memory safety, termination and the failure of unknown keys);
//  1 well-formed entries: param(1) = number of entries, keys out of the registered names, values of param(2) arbitrary bytes free of the reserved ones, optional blanks around entries, optional empty entries, optional unknown key; param(3): 0 any first key, else its number plus one (8 empty entry, 9 unknown key)
//  2 many entries: param(1) entries with values of param(2) bytes, a few of the bytes arbitrary
#include "opt.hpp"
static void finish(const std::string &s, const std::list<std::string> &entries, const std::vector<std::string> &toks, bool blank) {
    Rig A(true), B, C(true); bool b = B.o.parse(to_list(toks)), a = A.o.parseKeyValue(s), c = C.o.parseKeyValue(entries); observe(A, a);
    if (!blank) { sym_assert(a == b, "result like the long options on a command line"); sym_assert(c == b, "result of the list form"); }
    if (a && b) { State e; e.p = B.p; e.q = B.q; e.i = B.i; e.u = B.u; e.s = B.s; e.d = B.d; e.v = B.v; e.w = B.w; e.pos = B.o.getPosArgs(); for (int k = 0; k < 8; k++) e.pres[k] = B.o.isPresent(ABS[k]);
      compare_values(A, e); compare_pos(A, e); compare_pres(A, e); compare_values(C, e); sym_cover("accepted"); } else sym_cover("refused"); 
}
extern "C" void sym_main() {
  if (sym_param(0) == 2) { std::string s; std::vector<std::string> all, toks; std::list<std::string> entries; long_tokens(all, sym_param(1), sym_param(2), true); bool named = false; static const char *two[] = {"p", "q", "i", "u", "s", "d", "v", "w"};
    for (size_t k = 0, j = 0; k + 1 < all.size(); k++) { if (all[k][0] != '-' || (all[k][1] >= '0' && all[k][1] <= '9')) continue; const std::string &o = all[k]; std::string key; if (o[1] == '-') key = o.substr(2); else for (int x = 0; x < 8; x++) if (o[1] == two[x][0]) key = LONGS[x]; if (key == "pr" || key == "qr") continue; std::string e = key + "=" + all[k + 1]; if (j) s += j % 4 ? "," : " , "; s += e; entries.push_back(e); toks.push_back("--" + key); toks.push_back(all[k + 1]); j++; }
    finish(s, entries, toks, false); return; }
  if (sym_param(0) == 0) { std::string s = sym_string(sym_param(1)); Rig A(true), B(true); std::string copy = s; bool a = A.o.parseKeyValue(s), b = B.o.parse(s); sym_assert(a == b, "both entry points agree"); observe(A, a); sym_assert_eq(s, copy, "argument unchanged"); sym_cover("any"); }
  else { std::string s; std::vector<std::string> toks; std::list<std::string> entries; unsigned n = sym_param(1);
    for (unsigned k = 0; k < n; k++) { if (k) s += ","; unsigned pad = sym_choice(3); std::string e, key; unsigned w = k == 0 && sym_param(3) ? sym_param(3) - 1 : sym_choice(10); if (w == 8) { entries.push_back(""); if (pad) s += " "; sym_cover("empty entry"); continue; } key = w == 9 ? "zz" : LONGS[w]; 
      std::string v = sym_string(sym_param(2)); bool ok = true; for (char c : v) ok &= (c != '=') & (c != ',') & (c != ' '); sym_assume(ok); 
      if (pad & 1) e += " "; e += key + "=" + v; if (pad & 2) e += "  "; s += e; entries.push_back(e); toks.push_back("--" + key); toks.push_back(v); }
    if (n == 1 && toks.empty()) return; bool blank = toks.empty();
    finish(s, entries, toks, blank);
  }
}
