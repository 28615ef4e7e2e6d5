// P03: conversion of properties.  param(0) = type (0 int 1 unsigned 2 long 3 string 4 char 5 double 6 bool 7 short), param(1) = length of the text, param(2): bytes 0 arbitrary 1 digits and signs, 2 letters with three arbitrary bytes, 3 zeros and three digits, 4 blanks and two digits, signs or blanks, param(3) = depth of the property, param(4): 0 read at the node, 1 read through the tree
#include "ref.hpp"
#include <sstream>
#include "PropertyTree.hxx"
typedef SoDa::PropertyTree::PropNode Node;
struct Tree : SoDa::PropertyTree { void readFile(const std::string &) {} void writeFile(const std::string &) {} Node *top() { return root; } };
static bool same(const std::string &a, const std::string &b) { return sym_eq(a, b); }
template <class T> static bool same(const T &a, const T &b) { return a == b; }
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static bool contains(const std::string &s, const std::string &t) { bool hit = t.empty(); for (size_t i = 0; i + t.size() <= s.size(); i++) hit |= sym_eq(s.substr(i, t.size()), t); return hit; }
template <class T> static void run(T init) {
  std::string text = sym_param(2) == 2 ? sym_long(sym_param(1), 3) : sym_param(2) == 3 ? std::string(sym_param(1), '0') + sym_string_in(3, "0123456789") : sym_param(2) == 4 ? std::string(sym_param(1), ' ') + sym_string_in(2, "0129-+ ") : sym_param(2) ? sym_string_in(sym_param(1), "0129-+ ") : sym_string(sym_param(1)); Tree t; Node *n = t.top(); std::string path; static const char *names[] = {"alpha", "be ta", "g"};
  for (unsigned i = 0; i < sym_param(3); i++) { Node *c = new Node(n, i + 1 == sym_param(3) ? text : "", i + 1 == sym_param(3)); n->dictionary["other"] = new Node(n, "77", true); n->dictionary[names[i % 3]] = c; if (!path.empty()) path += ":"; path += names[i % 3]; n = c; }
  T ref = init; std::stringstream ss(text, std::ios_base::in); ss >> ref; bool ok = !ss.fail();
  T v = init; bool r = false, bad = false, foreign = false; try { r = sym_param(4) ? t.get(v, path, false) : n->get(v, false); } catch (...) { foreign = true; } sym_assert(!foreign, "no exception unless asked for"); sym_assert(r == ok, "success exactly when the text starts with a value"); if (ok) sym_assert(same(v, ref), "what the stream reads");
  T w = init; r = false; std::string msg; try { r = sym_param(4) ? t.get(w, path, true) : n->get(w, true); } catch (Node::BadPropertyType &e) { bad = true; msg = e.what(); } catch (...) { foreign = true; }
  sym_assert(!foreign && bad == !ok && r == ok, "the bad-type exception exactly when the text has no such value"); if (ok) { sym_assert(same(w, ref), "what the stream reads"); sym_cover("converted"); } else { sym_assert(contains(msg, path), "the message names the path"); bool nul = false; for (char c : text) nul |= c == 0; if (!nul) sym_assert(contains(msg, text), "the message names the text"); sym_cover("refused"); }
  sym_assert(sym_eq(n->val_string, text), "the property is unchanged"); sym_observe(r); sym_observe(bad);
}
extern "C" void sym_main() { switch (sym_param(0)) { case 0: run<int>(42); break; case 1: run<unsigned>(42); break; case 2: run<long>(42); break; case 3: run<std::string>("init"); break; case 4: run<char>('?'); break; case 5: run<double>(1.5); break; case 6: run<bool>(false); break; default: run<short>(42); } }
