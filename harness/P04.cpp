// P04: names of nodes and dumps.  param(0) = length of the keys, param(1) = length of the texts, param(2) = what: 0 path names, 1 dump; param(3) = shape: 0 a chain of three levels, 1 two subtrees, 2 inner nodes with elements, 3 a chain of six levels, 10 + k: a chain of k levels with k elements at its end, 3 arbitrary bytes in every third key
#include "ref.hpp"
#include <sstream>
#include "PropertyTree.hxx"
typedef SoDa::PropertyTree::PropNode Node;
struct Tree : SoDa::PropertyTree { void readFile(const std::string &) {} void writeFile(const std::string &) {} Node *top() { return root; } };
struct Ref { Node *n; std::vector<std::pair<std::string, Ref *>> kids; std::vector<std::string> el; std::string text; bool leaf; };
static unsigned cnt; static std::string key() { std::string k = sym_param(3) >= 10 ? sym_long(sym_param(0), cnt++ % 3 == 1 && cnt < 20 ? 3 : 0) : sym_string(sym_param(0)); for (char c : k) sym_assume(c != ':'); return k; }
static Ref *mk(Node *n, const std::string &t, bool leaf) { Ref *f = new Ref(); f->n = n; f->text = t; f->leaf = leaf; return f; }
static Ref *kid(Ref *r, bool leaf) { std::string k = key(), t = leaf ? sym_string(sym_param(1)) : ""; for (auto &o : r->kids) sym_assume(!sym_eq(o.first, k)); Node *n = new Node(r->n, t, leaf); r->n->dictionary[k] = n; Ref *f = mk(n, t, leaf); r->kids.push_back(std::make_pair(k, f)); return f; }
static void element(Ref *r) { std::string t = sym_string(sym_param(1)); r->n->prop_list.push_back(new Node(r->n, t, true)); r->el.push_back(t); }
static bool at(const std::string &s, size_t p, const std::string &t) { if (p + t.size() > s.size()) return false; bool d = false; for (size_t i = 0; i < t.size(); i++) d |= s[p + i] != t[i]; return !d; }
// the texts in this order, one after the other
static bool ordered(const std::string &s, const std::vector<std::string> &ts) { size_t n = s.size(), p = 0; std::vector<unsigned char> r(n + 1, 1), t; // r[q]: the texts so far fit into the first q characters
  for (auto &x : ts) { t.assign(n + 1, 0); unsigned char any = 0; for (p = x.size(); p <= n; p++) { any |= (unsigned char)(r[p - x.size()] & (unsigned char)at(s, p - x.size(), x)); t[p] = any; } r = t; }
  return r[n] != 0; }
static Tree *tree;
static void names(const Ref *r, const std::string &path) { for (auto &o : r->kids) { std::string p = path.empty() ? o.first : path + ":" + o.first; std::string g = o.second->n->getPathName(); sym_assert_eq(g, p, "the keys leading to the node"); sym_assert(tree->top()->getProp(g) == o.second->n, "the path name leads back to the node"); sym_observe(g); names(o.second, p); } }
static void shown(const Ref *r, const std::string &d, std::vector<std::string> way) { if (r->el.size()) { std::vector<std::string> w = way; w.insert(w.end(), r->el.begin(), r->el.end()); sym_assert(ordered(d, w), "the elements of a node, in order, after the keys leading to it"); }
  for (auto &o : r->kids) { std::vector<std::string> w = way; w.push_back(o.first); if (o.second->leaf) w.push_back(o.second->text); sym_assert(ordered(d, w), "every key, with its text after it"); shown(o.second, d, w); } }
static void same(const Ref *r) { sym_assert(r->n->dictionary.size() == r->kids.size() && r->n->prop_list.size() == r->el.size() && r->n->is_terminal == r->leaf, "the tree is unchanged"); size_t k = 0; for (auto e : r->n->prop_list) sym_assert_eq(e->val_string, r->el[k++], "the elements are unchanged"); for (auto &o : r->kids) { auto it = r->n->dictionary.find(o.first); sym_assert(it != r->n->dictionary.end() && it->second == o.second->n, "the keys are unchanged"); if (o.second->leaf) sym_assert_eq(o.second->n->val_string, o.second->text, "the texts are unchanged"); same(o.second); } }
extern "C" void sym_main() {
  Tree t; tree = &t; Ref *root = mk(t.top(), "", false); unsigned sh = sym_param(3);
  if (sh >= 10) { Ref *a = root; for (unsigned k = 10; k < sh; k++) a = kid(a, false); for (unsigned k = 10; k < sh; k++) element(a); kid(a, true); } else if (sh == 0) { Ref *a = kid(root, false), *b = kid(a, false); kid(b, true); } else if (sh == 3) { Ref *a = root; for (unsigned k = 0; k < 5; k++) a = kid(a, false); element(a); kid(a, true); } else if (sh == 1) { Ref *a = kid(root, false), *b = kid(root, false); kid(a, true); kid(b, true); } else { Ref *a = kid(root, false); element(root); element(root); element(a); element(a); kid(a, true); kid(root, false); }
  if (sym_param(2) == 0) { names(root, ""); sym_cover("named"); }
  else { std::ostringstream os; std::ostream &r = t.dump(os); sym_assert(&r == &os, "the stream is returned"); std::string d = os.str(); sym_observe(d); shown(root, d, std::vector<std::string>()); std::ostringstream o2; t.dump(o2); sym_assert_eq(o2.str(), d, "a dump is repeatable"); sym_cover("dumped"); }
  same(root);
}
