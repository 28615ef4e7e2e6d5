// P01: path look-up.  param(0) = length of the path, param(1) = shape (0 chain a:b:c beside a:c, 1 two subtrees, 2 only the root with one child, 3 an inner node without children beside a leaf and one with elements only), param(2) = length of the keys, param(3): keys and path 0 of arbitrary bytes, 1 out of "ab :"; shape 4: see deep()
#include "ref.hpp"
#include <sstream>
#include "PropertyTree.hxx"
typedef SoDa::PropertyTree::PropNode Node;
struct Tree : SoDa::PropertyTree { void readFile(const std::string &) {} void writeFile(const std::string &) {} Node *top() { return root; } };
struct Ref { Node *n; std::vector<std::pair<std::string, Ref *>> kids; };
static std::string key() { std::string k; for (unsigned i = 0; i < sym_param(2); i++) { char c = sym_param(3) ? sym_char_in("ab ", 3) : (char)sym_u8(); sym_assume(c != ':'); k.push_back(c); } return k; }
static Ref *addKid(Ref *r, bool term) { std::string k = key(); for (auto &o : r->kids) sym_assume(!sym_eq(o.first, k)); Node *n = new Node(r->n, term ? "text" : "", term); r->n->dictionary[k] = n; Ref *f = new Ref(); f->n = n; r->kids.push_back(std::make_pair(k, f)); return f; }
static const Ref *descend(const Ref *r, const std::vector<std::string> &p) { for (auto &k : p) { const Ref *nx = 0; for (auto &o : r->kids) if (o.first == k) { nx = o.second; break; } if (!nx) return 0; r = nx; } return r; }
static void check(const Ref *r, int depth) { std::list<std::string> ks = r->n->getKeys(); sym_assert(ks.size() == r->kids.size(), "one key per child"); for (auto &o : r->kids) { bool hit = false; for (auto &k : ks) hit |= sym_eq(k, o.first); sym_assert(hit, "the key of every child is listed"); auto it = r->n->dictionary.find(o.first); sym_assert(it != r->n->dictionary.end() && it->second == o.second->n, "look-ups do not modify the tree"); check(o.second, depth + 1); } }
// 4: param(0) levels with param(2) further keys each and keys of param(3) bytes; the path to an arbitrary level, or one that goes wrong there
static void deep(unsigned levels, unsigned beside, unsigned len) { Tree t; std::vector<Node *> way(1, t.top()); std::vector<std::string> ks;
  for (unsigned k = 0; k < levels; k++) { std::string key = sym_long(len ? len : 1, k % 4 == 1 && k < 20 ? 1 : 0); for (char c : key) sym_assume(c != ':'); Node *n = way.back(); for (unsigned j = 0; j < beside; j++) { std::string o = key + std::to_string(j) + (j % 2 ? " " : ""); n->dictionary[o] = new Node(n, "beside", true); n->prop_list.push_back(new Node(n, "e" + std::to_string(j), true)); }
    Node *c = new Node(n, k + 1 == levels ? "the text" : "", k + 1 == levels); n->dictionary[key] = c; way.push_back(c); ks.push_back(key); }
  unsigned to = sym_choice(levels), wrong = sym_choice(4); std::string path; for (unsigned k = 0; k <= to; k++) { if (k) path += ":"; path += ks[k]; } if (wrong == 1) path += "?"; if (wrong == 3) { char c = (char)sym_u8(); sym_assume((c != ':') & (c != path.back())); path.back() = c; } if (wrong == 2) path += ":" + std::string(len + 4, 0x3f);
  Node *r = t.top()->getProp(path, false), *e = wrong ? 0 : way[to + 1]; sym_assert(r == e, "exactly the node named by the keys, or none"); bool thrown = false; try { sym_assert(t.top()->getProp(path, true) == e, "the node"); } catch (Node::PropertyNotFound &) { thrown = true; } sym_assert(thrown == !e, "not-found exception when asked for");
  std::string v; bool ok = t.get(v, path, false); sym_assert(ok == (!wrong && to + 1 == levels), "reading a property"); if (ok) sym_assert_eq(v, "the", "the text of the property"); sym_cover(wrong ? "missing" : to ? "deep" : "found");
  Node *n = way[to]; std::list<std::string> l = n->getKeys(); sym_assert(l.size() == beside + 1 && n->dictionary.size() == beside + 1, "one key per child"); unsigned own = 0; for (auto &k : l) if (sym_eq(k, ks[to])) own++; sym_assert(own == 1, "the key of every child is listed"); std::list<Node *> el = n->getList(); sym_assert(el.size() == beside, "the elements"); unsigned j = 0; for (auto x : el) { sym_assert(x->val_string == "e" + std::to_string(j), "the elements in order"); j++; } }
extern "C" void sym_main() {
  if (sym_param(1) == 4) { deep(sym_param(0), sym_param(2), sym_param(3)); return; }
  Tree t; Ref root; root.n = t.top(); Ref *c = 0; Node *inner = 0, *dl = 0; int shape = sym_param(1);
  if (shape == 0) { Ref *a = addKid(&root, false), *b = addKid(a, false); addKid(b, true); c = addKid(a, true); } else if (shape == 1) { Ref *a = addKid(&root, false), *b = addKid(&root, false); addKid(a, true); c = addKid(b, true); } else if (shape == 2) c = addKid(&root, true); else { addKid(&root, false); c = addKid(&root, true); Ref *d = addKid(&root, false); d->n->prop_list.push_back(inner = new Node(d->n, "three", true)); dl = d->n; }
  Node *e1 = new Node(root.n, "one", true), *e2 = new Node(root.n, "two", true); root.n->prop_list.push_back(e1); root.n->prop_list.push_back(e2);
  std::string path = sym_param(3) ? sym_string_in(sym_param(0), "ab :") : sym_string(sym_param(0));
  // the keys of the path; a last key that is empty may be ignored
  std::vector<std::string> p; std::string cur; for (char x : path) if (x == ':') { p.push_back(cur); cur.clear(); } else cur.push_back(x); std::vector<std::string> q = p; q.push_back(cur); const Ref *e = descend(&root, q), *alt = cur.empty() ? descend(&root, p) : e;
  Node *r = t.top()->getProp(path, false); sym_assert(r == (e ? e->n : 0) || (cur.empty() && r == (alt ? alt->n : 0)), "exactly the node named by the keys, or none");
  bool thrown = false, foreign = false; Node *r2 = 0; try { r2 = t.top()->getProp(path, true); } catch (Node::PropertyNotFound &) { thrown = true; } catch (...) { foreign = true; }
  sym_assert(!foreign && thrown == (r == 0) && (thrown || r2 == r), "not-found exception when asked for");
  std::string v = "-"; bool ok = false; foreign = false; try { ok = t.get(v, path, false); } catch (...) { foreign = true; } sym_assert(!foreign, "no exception unless asked for"); 
  if (!r) { sym_assert(!ok, "reading a missing property is false"); sym_cover("missing"); } else { sym_assert(ok == (r->val_string.size() > 0), "reading a property"); if (ok) sym_assert(v == r->val_string, "the text of the property"); sym_cover(p.size() ? "deep" : "found"); }
  thrown = foreign = false; try { ok = t.get(v, path, true); } catch (Node::PropertyNotFound &) { thrown = true; } catch (Node::BadPropertyType &) { } catch (...) { foreign = true; } sym_assert(!foreign && thrown == (r == 0), "the not-found exception exactly for missing properties");
  check(&root, 0); std::list<Node *> l = root.n->getList(); sym_assert(l.size() == 2 && l.front() == e1 && l.back() == e2, "the elements in order"); sym_assert(c->n->getList().empty() && c->n->getKeys().empty(), "a leaf has none"); if (dl) { std::list<Node *> m = dl->getList(); sym_assert(m.size() == 1 && m.front() == inner && dl->getKeys().empty(), "an inner node lists its own elements"); } sym_observe(r ? 1 : 0);
}
