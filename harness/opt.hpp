// The registered options the Options harnesses share, and a reference interpreter written from the property statements.
#pragma once
#include "ref.hpp"
#include "Options.hxx"
struct State { bool p, q; int i; unsigned u; std::string s, d; std::vector<std::string> v; std::vector<int> w; std::vector<std::string> pos; bool pres[8]; };
static const char ABS[] = "pqiusdvw"; static const char *const LONGS[8] = {"pr", "qr", "in", "un", "st", "ds", "ve", "wi"};
enum { K_P, K_Q, K_I, K_U, K_S, K_D, K_V, K_W };
struct Rig { SoDa::Options o; bool p, q; int i; unsigned u; std::string s, d; std::vector<std::string> v; std::vector<int> w;
  Rig(bool kv = false) : o(kv) { o.addP(&p, "pr", 'p').addP(&q, "qr", 'q').add<int>(&i, "in", 'i', -7).add<unsigned>(&u, "un", 'u', 9u).add<std::string>(&s, "st", 's').add<std::string>(&d, "ds", 'd', std::string("dflt"), std::string("doc")).addV<std::string>(&v, "ve", 'v').addV<int>(&w, "wi", 'w'); } };
// integer text as the C++ stream reads it; false: not convertible
static inline bool ref_int(const std::string &t, bool uns, uint32_t &out) { size_t k = 0, n = t.size(); while (k < n && (t[k] == ' ' || ((unsigned char)t[k] >= 9 && (unsigned char)t[k] <= 13))) k++;
  bool neg = false; if (k < n && (t[k] == '-' || t[k] == '+')) { neg = t[k] == '-'; k++; } 
  if (k >= n || !ref_digit(t[k])) return false; uint64_t v = 0; size_t dig = 0; while (k < n && ref_digit(t[k])) { if (v <= 0xffffffffffull) v = v * 10 + (unsigned)((unsigned char)t[k] - '0'); k++; dig++; }
  if (uns) { if (v > 0xffffffffull) return false; } else if (v > (neg ? 0x80000000ull : 0x7fffffffull)) return false;
  out = neg ? 0u - (uint32_t)v : (uint32_t)v; return true; }
// 0 positional or value, 1 short, 2 long
static inline int ref_switch(const std::string &t) { if (t.size() < 2 || t[0] != '-') return 0; if (t[1] == '-') return t.size() < 3 ? 0 : 2; return 1; }
static inline int ref_find(const std::string &t, int sw) { if (sw == 1) { for (int k = 0; k < 8; k++) if (t[1] == ABS[k]) return k; return -1; }
  for (int k = 0; k < 8; k++) { const char *l = LONGS[k]; if (t.size() == 2 + strlen(l) && memcmp(t.data() + 2, l, strlen(l)) == 0) return k; } return -1; }
struct Ref { State st; Ref() { st.p = st.q = false; st.i = -7; st.u = 9; st.d = "dflt"; for (auto &b : st.pres) b = false; }
  bool value(int k, const std::string &t) { uint32_t x; st.pres[k] = true; switch (k) { case K_S: st.s = t; return true; case K_D: st.d = t; return true; case K_V: st.v.push_back(t); return true;
      case K_I: if (!ref_int(t, false, x)) return false; st.i = (int)x; return true; case K_U: if (!ref_int(t, true, x)) return false; st.u = x; return true; default: if (!ref_int(t, false, x)) return false; st.w.push_back((int)x); return true; } }
  bool parse(const std::vector<std::string> &ts) { int pend = -1;
    for (auto &t : ts) { bool eats = pend == K_S || pend == K_I || pend == K_W; int sw = eats ? 0 : ref_switch(t);
      if (!sw) { if (pend < 0) st.pos.push_back(t); else { if (!value(pend, t)) return false; pend = -1; } continue; }
      if (pend >= 0) st.pres[pend] = true; pend = -1;
      if (sw == 1 && t[1] == 'h') return false; if (sw == 2 && t == "--help") return false;
      int k = ref_find(t, sw); if (k < 0) return false; if (k == K_P || k == K_Q) { st.pres[k] = true; (k == K_P ? st.p : st.q) = true; } else pend = k; }
    if (pend >= 0) st.pres[pend] = true; return true; } };
static inline void compare_values(Rig &R, const State &e) { 
  sym_assert(R.p == e.p && R.q == e.q, "presence flags"); sym_assert(R.i == e.i, "integer option"); sym_assert(R.u == e.u, "unsigned option"); sym_assert_eq(R.s, e.s, "string option"); sym_assert_eq(R.d, e.d, "string option with default");
  sym_assert(R.v.size() == e.v.size(), "string vector length"); for (size_t k = 0; k < R.v.size() && k < e.v.size(); k++) sym_assert_eq(R.v[k], e.v[k], "string vector element");
  sym_assert(R.w.size() == e.w.size(), "integer vector length"); for (size_t k = 0; k < R.w.size() && k < e.w.size(); k++) sym_assert(R.w[k] == e.w[k], "integer vector element"); }
static inline void compare_pos(Rig &R, const State &e) { const std::vector<std::string> &ps = R.o.getPosArgs(); sym_assert(ps.size() == e.pos.size() && R.o.numPosArgs() == (int)e.pos.size(), "number of positional arguments");
  for (size_t k = 0; k < ps.size() && k < e.pos.size(); k++) { sym_assert_eq(ps[k], e.pos[k], "positional argument"); sym_assert_eq(R.o.getPosArg((int)k), e.pos[k], "positional argument by index"); } }
static inline void compare_pres(Rig &R, const State &e) { for (int k = 0; k < 8; k++) { sym_assert(R.o.isPresent(ABS[k]) == e.pres[k], "presence by letter"); sym_assert(R.o.isPresent(std::string(LONGS[k])) == e.pres[k], "presence by name"); } }
static inline void observe(Rig &R, bool ok) { sym_observe(ok); sym_observe((uint32_t)R.i); sym_observe(R.u); sym_observe(R.s); sym_observe(R.d); sym_observe(R.v.size()); for (auto &x : R.v) sym_observe(x); for (auto x : R.w) sym_observe((uint32_t)x); sym_observe(R.o.numPosArgs()); for (auto &x : R.o.getPosArgs()) sym_observe(x); }
// token of a parse: kind 0..9 that many arbitrary bytes; 10 a short option token out of the registered letters; 11 a long one; 12 "-" and a digit; 13 a value out of a few shapes
static inline std::string token(unsigned kind) { if (kind < 10) return sym_string(kind); 
  if (kind == 10) { std::string t = "-"; t += sym_string_in(1, ABS); return t; }
  if (kind == 11) { std::string t = "--"; t += LONGS[sym_choice(8)]; return t; }
  if (kind == 12) { std::string t = "-"; t += sym_string_in(1, "0123456789"); return t; }
  return sym_string_in(1, "0123456789a"); }
static inline std::list<std::string> to_list(const std::vector<std::string> &v) { return std::list<std::string>(v.begin(), v.end()); }
// n options and arguments in a row whose texts have l bytes, a few of them arbitrary (other than blanks and quotation marks if plain)
static inline void long_tokens(std::vector<std::string> &ts, unsigned n, unsigned l, bool plain) { unsigned left = 6;
  auto text = [&]() { std::string t = letters(l ? l : 1); if (left && l > 1) { left--; char c = (char)sym_u8(); sym_assume((c != 0) & (c != '"')); if (plain) sym_assume((c != ' ') & ((unsigned char)(c - 9) > 4) & (c != ',') & (c != '=')); t[left % 2 ? l / 2 : l - 1] = c; } return t; };
  for (unsigned k = 0; k < n; k++) switch (k % 7) { case 0: case 3: ts.push_back(text()); break; case 1: ts.push_back("-v"); ts.push_back(text()); break; case 2: ts.push_back("--wi"); ts.push_back(std::to_string((int)k * (k & 8 ? -1001 : 37))); break;
    case 4: ts.push_back(k & 8 ? "-q" : "--pr"); break; case 5: ts.push_back(k & 8 ? "-s" : "--ds"); ts.push_back(text()); break; default: ts.push_back("-u"); ts.push_back(std::to_string(k)); ts.push_back("--in"); ts.push_back(std::to_string(-(int)k)); } }
// the token (or tokens: 97, how many, length) described by the parameters at k
static inline void next_tokens(std::vector<std::string> &ts, int &k) { unsigned t = sym_param(k); if (t == 97) { long_tokens(ts, sym_param(k + 1), sym_param(k + 2), false); k += 2; } else ts.push_back(token(t)); }
