// O06: help and diagnostics.  param(0) = 0: printHelp with texts of param(1) arbitrary bytes, param(2): 1 key=value mode, param(3) = number of information texts; 1: a value of param(1) arbitrary bytes for an option whose acceptance test has an arbitrary verdict, param(2): 0 int 1 vector<int> 2 bool; 2: a single token of param(1) arbitrary bytes; 3: a help request after param(1) other tokens
#include "ref.hpp"
#include <iostream>
#include <sstream>
#include "Options.hxx"
static bool contains(const std::string &s, const std::string &t) { bool hit = t.empty(); for (size_t i = 0; i + t.size() <= s.size(); i++) hit |= sym_eq(s.substr(i, t.size()), t); return hit; }
static bool blank(char c) { return c == ' ' || c == '\t'; }
static bool at(const std::string &s, size_t p, const std::string &t) { if (p + t.size() > s.size()) return false; return sym_eq(s.substr(p, t.size()), t); }
// is there an entry: the name, [blanks, the abbreviation,] blanks, the documentation, the end of the line
static bool entry(const std::string &h, size_t from, const std::string &name, char ab, bool kv, const std::string &doc) {
  for (size_t p = from; p + name.size() <= h.size(); p++) { if (!at(h, p, name)) continue; size_t q = p + name.size();
    if (!kv) { while (q < h.size() && blank(h[q])) q++; std::string a = "-"; a += ab; if (!at(h, q, a)) continue; q += 2; }
    for (;; q++) { if (at(h, q, doc + "\n")) return true; if (q >= h.size() || !blank(h[q])) break; } }
  return false; }
struct Cap { std::ostringstream o; std::streambuf *old; Cap() { old = std::cerr.rdbuf(o.rdbuf()); } ~Cap() { std::cerr.rdbuf(old); } };
// 4: param(1) information texts and param(3) options with texts of param(2) bytes, one byte of each third text arbitrary; param(4): 1 key=value mode
static void many(unsigned ni, unsigned len, unsigned no, bool kv) { SoDa::Options o(kv); std::string head; std::vector<std::string> names, docs; std::vector<int> vals(no); 
  for (unsigned k = 0; k < ni; k++) { std::string t = sym_long(len, k % 3 == 1 && k < 12 ? 1 : 0); o.addInfo(t); head += t + "\n"; }
  for (unsigned k = 0; k < no; k++) { names.push_back("N" + letters(k % 40) + std::to_string(k)); docs.push_back(sym_long(len, k % 3 == 1 && k < 12 ? 1 : 0)); o.add<int>(&vals[k], names[k], (char)(k < 93 ? 33 + k : 128 + k - 93), 0, docs[k]); }
  std::ostringstream h; o.printHelp(h); std::string help = h.str(); sym_assert(help.size() >= head.size() && sym_eq(help.substr(0, head.size()), head), "the information texts in order");
  for (unsigned k = 0; k < no; k++) { bool hit = false; std::string n = (kv ? "" : "--") + names[k], d = docs[k] + "\n"; for (size_t f = help.find(n, head.size()); f != std::string::npos && !hit; f = help.find(n, f + 1)) { size_t q = f + n.size(); if (q >= help.size() || !blank(help[q])) continue; while (q < help.size() && blank(help[q])) q++; if (!kv) { if (help[q] != '-' || help[q + 1] != (char)(k < 93 ? 33 + k : 128 + k - 93)) continue; q += 2; }
      for (;; q++) { if (at(help, q, d)) { hit = true; break; } if (q >= help.size() || !blank(help[q])) break; } } sym_assert(hit, "every option has its entry"); }
  sym_cover("help"); }
extern "C" void sym_main() {
  if (sym_param(0) == 4) { many(sym_param(1), sym_param(2), sym_param(3), sym_param(4)); return; }
  unsigned mode = sym_param(0), n = sym_param(1); bool kv = mode == 0 && sym_param(2); int i; bool p, b; std::vector<int> v; std::string s, msg = mode == 1 ? sym_string(1) : "no";
  SoDa::Options o(kv); std::string doc[6] = {"", "", "The number", "", "last"}; unsigned verdict = 1;
  if (mode == 0) { doc[0] = sym_string(n); doc[3] = sym_string(n); } if (mode == 1) verdict = sym_u8() & 1; auto okI = [&](int) { return verdict == 1; }; auto okB = [&](bool) { return verdict == 1; };
  o.addP(&p, "flag", 'f', doc[0]).add<int>(&i, "number", 'n', 5, doc[2], okI, msg).addV<int>(&v, "several", 'e', doc[3], okI, msg).add<std::string>(&s, "a-name-wider-than-the-column", 'w', std::string("d"), doc[4]).add<bool>(&b, "truth", 't', doc[1], okB, msg);
  std::string zn = "z"; char za = 'z'; int zi; if (mode == 0) { zn += sym_string(n ? n : 1); za = (char)sym_u8(); for (char c : std::string("fnewth")) sym_assume(za != c); doc[5] = sym_string(n); o.add<int>(&zi, zn, za, 0, doc[5]); }
  std::string inf[5] = {"About", "this", "and", "that", "too"}; unsigned ni = mode == 0 ? sym_param(3) : 2; if (mode == 0) for (unsigned k = 0; k < ni; k++) inf[k] = sym_string(n); std::string head; for (unsigned k = 0; k < ni; k++) { o.addInfo(inf[k]); head += inf[k] + "\n"; }
  std::ostringstream h; std::ostream &r = o.printHelp(h); sym_assert(&r == &h, "the stream is returned"); std::string help = h.str();
  sym_assert(help.size() >= head.size() && sym_eq(help.substr(0, head.size()), head), "the information texts in order");
  std::ostringstream h2; o.printHelp(h2); sym_assert(sym_eq(h2.str(), help), "help is repeatable"); sym_observe(help);
  if (mode == 0) { size_t f = head.size(); sym_assert(entry(help, f, kv ? "flag" : "--flag", 'f', kv, doc[0]), "the presence option"); sym_assert(entry(help, f, kv ? "number" : "--number", 'n', kv, doc[2]), "the scalar option"); sym_assert(entry(help, f, kv ? "several" : "--several", 'e', kv, doc[3]), "the vector option"); sym_assert(entry(help, f, kv ? "a-name-wider-than-the-column" : "--a-name-wider-than-the-column", 'w', kv, doc[4]), "the option with a long name"); sym_assert(entry(help, f, kv ? "truth" : "--truth", 't', kv, doc[1]), "the option without documentation"); sym_assert(entry(help, f, kv ? zn : "--" + zn, za, kv, doc[5]), "the option with a name and an abbreviation of arbitrary bytes"); sym_cover("help"); return; }
  Cap c; std::list<std::string> t; bool ok; std::string x;
  if (mode == 1) { unsigned k = sym_param(2); x = sym_string(n); t.push_back(k == 0 ? "-n" : k == 1 ? "--several" : "--truth"); t.push_back(x); sym_assume(n < 2 || x[0] != '-' || k != 2); ok = o.parse(t); std::string e = c.o.str(); sym_observe(ok); sym_observe(e);
    if (ok) { sym_assert(e.empty(), "an accepted command line prints nothing"); sym_cover("accepted"); } else { bool nul = false; for (char ch : x) nul |= ch == 0; for (char ch : msg) nul |= ch == 0; sym_assert(contains(e, k == 0 ? "number" : k == 1 ? "several" : "truth"), "the message names the option"); if (!nul) { sym_assert(contains(e, x), "the message shows the text"); sym_assert(contains(e, msg), "the message gives the option's explanation"); } sym_cover("refused"); } return; }
  if (mode == 2) { x = sym_string(n); t.push_back(x); ok = o.parse(t); std::string e = c.o.str(); sym_observe(ok); sym_observe(e); bool hs = n >= 2 && x[0] == '-' && x[1] == 'h', hl = n == 6 && x == "--help"; if (ok) { sym_assert(e.empty() && !hs && !hl, "an accepted command line prints nothing"); sym_cover("accepted"); } else if (hs || hl) { sym_assert(contains(e, help), "help on request"); sym_cover("requested"); } else { bool nul = false; for (char ch : x) nul |= ch == 0; if (!nul) sym_assert(contains(e, x), "the message names the unknown option"); sym_cover("unknown"); } return; }
  static const char *pre[] = {"-f", "word", "--number", "3", "--flag"}; for (unsigned k = 0; k < n; k++) t.push_back(pre[k]); unsigned w = sym_choice(2); t.push_back(w ? "--help" : "-h"); t.push_back("--nosuch"); ok = o.parse(t); sym_assert(!ok, "a help request makes the parse fail"); sym_assert(contains(c.o.str(), help), "help on request"); sym_cover("requested");
}
