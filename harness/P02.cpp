// P02: loading a document (the stand-in of models/yaml supplies it).  param(0) = depth of the maps, param(1) = entries per map, param(2) = elements per sequence, param(3) = length of keys and scalars, param(4): 1 the file cannot be opened; param(5): 1 the file is given to the constructor
#include "ref.hpp"
#include "PropertyTreeYAML.hxx"
#include <yaml-cpp/yaml.h>
typedef SoDa::PropertyTree::PropNode Node;
struct Ref { std::vector<std::pair<std::string, Ref *>> kids; std::vector<std::string> elems; std::string text; bool scalar; };
static YAML::Node makeMap(int depth, Ref *r, bool root) { YAML::Node n(YAML::NodeType::Map); r->scalar = false; unsigned cnt = sym_choice(sym_param(1) + 1); std::vector<std::string> keys;
  for (unsigned i = 0; i < cnt; i++) { std::string k = sym_string(sym_param(3)); for (auto &o : keys) sym_assume(!sym_eq(o, k)); for (char c : k) sym_assume(c != ':'); keys.push_back(k);
    switch (sym_choice(depth > 0 ? 3 : 2)) {
    case 0: { std::string s = sym_string(sym_param(3)); n.add(YAML::Node(k), YAML::Node(s)); Ref *f = new Ref(); f->scalar = true; f->text = s; r->kids.push_back(std::make_pair(k, f)); break; }
    case 1: { YAML::Node q(YAML::NodeType::Sequence); unsigned m = sym_choice(sym_param(2) + 1); for (unsigned j = 0; j < m; j++) { std::string s = sym_string(sym_param(3)); q.push_back(YAML::Node(s)); r->elems.push_back(s); } n.add(YAML::Node(k), q); break; }
    default: { Ref *f = new Ref(); n.add(YAML::Node(k), makeMap(depth - 1, f, false)); r->kids.push_back(std::make_pair(k, f)); } } }
  (void)root; return n; }
static void check(const Ref *r, Node *n, Node *root, const std::string &path) {
  sym_assert(n->dictionary.size() == r->kids.size(), "exactly the keys of the map"); sym_assert(n->prop_list.size() == r->elems.size(), "exactly the scalars of the sequences");
  auto it = n->prop_list.begin(); for (size_t i = 0; i < r->elems.size() && it != n->prop_list.end(); i++, ++it) { sym_assert(sym_eq((*it)->val_string, r->elems[i]) && (*it)->is_terminal && (*it)->dictionary.empty() && (*it)->prop_list.empty(), "the scalars of a sequence in order"); sym_cover("sequence"); }
  for (auto &k : r->kids) { std::string p = path.empty() ? k.first : path + ":" + k.first; Node *c = root->getProp(p, false); sym_assert(c != 0, "found under its path"); if (!c) return; auto d = n->dictionary.find(k.first); sym_assert(d != n->dictionary.end() && d->second == c && c->parent == n, "where it stands");
    if (k.second->scalar) { sym_assert(c->is_terminal && sym_eq(c->val_string, k.second->text) && c->dictionary.empty() && c->prop_list.empty(), "a scalar with its text"); sym_cover("scalar"); } else { sym_assert(!c->is_terminal, "an inner map is not terminal"); check(k.second, c, root, p); sym_cover("inner map"); } } }
struct Tree : SoDa::PropertyTreeYAML { Tree() {} Tree(const std::string &f) : SoDa::PropertyTreeYAML(f) {} Node *top() { return root; } };
// param(0) = 9: maps nested param(1) deep with param(2) entries each, sequences of param(2) scalars, keys and scalars of param(3) bytes, a few bytes arbitrary
static unsigned left = 8, keysLeft = 2; static std::string text(unsigned n) { if (left && n > 1) { left--; return sym_long(n, 1); } return letters(n); }
static YAML::Node large(int depth, Ref *r) { YAML::Node n(YAML::NodeType::Map); r->scalar = false; unsigned m = sym_param(2), len = sym_param(3);
  for (unsigned i = 0; i < m; i++) { std::string k = (i == m / 2 && keysLeft ? keysLeft--, text(len) : letters(len)) + std::to_string(i); for (char c : k) sym_assume(c != ':'); 
    if (i == m / 2 && depth > 0) { Ref *f = new Ref(); n.add(YAML::Node(k), large(depth - 1, f)); r->kids.push_back(std::make_pair(k, f)); }
    else if (i == 1) { YAML::Node q(YAML::NodeType::Sequence); for (unsigned j = 0; j < m; j++) { std::string s = text(len) + std::to_string(j); q.push_back(YAML::Node(s)); r->elems.push_back(s); } n.add(YAML::Node(k), q); }
    else { std::string s = text(len) + std::to_string(i); n.add(YAML::Node(k), YAML::Node(s)); Ref *f = new Ref(); f->scalar = true; f->text = s; r->kids.push_back(std::make_pair(k, f)); } }
  return n; }
extern "C" void sym_main() {
  Ref r; bool missing = sym_param(4); YAML::stub::missing() = missing; YAML::stub::document() = sym_param(0) == 9 ? large(sym_param(1), &r) : makeMap(sym_param(0), &r, true); Tree *t = 0; bool raised = false, foreign = false; std::string what;
  try { if (sym_param(5)) t = new Tree("some/file.yaml"); else { t = new Tree(); t->readFile("some/file.yaml"); } } catch (SoDa::PropertyTree::FileNotFound &e) { raised = true; what = e.what(); } catch (...) { foreign = true; }
  sym_assert(!foreign && raised == missing, "the file-not-found exception exactly for a missing file"); if (raised) { sym_assert(what.find("some/file.yaml") != std::string::npos, "the exception names the file"); sym_cover("missing file"); return; } if (!t) return;
  Node *top = t->top(); sym_assert(!top->is_terminal, "the top is not terminal"); check(&r, top, top, ""); sym_observe(top->dictionary.size()); sym_cover("loaded");
}
