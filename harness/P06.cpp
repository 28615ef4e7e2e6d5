// P06: reading several documents, independent trees.  param(0) = documents, param(1) = entries of each, param(2) = length of keys and texts, param(3): 1 a second tree reads them too, in the other order, param(4) = form of the first entry of the first document plus one (0: any)
#include "ref.hpp"
#include "PropertyTreeYAML.hxx"
#include <yaml-cpp/yaml.h>
typedef SoDa::PropertyTree::PropNode Node;
struct Entry { std::string key, text; int form; std::vector<std::string> el; };   // form 0 scalar, 1 sequence, 2 map with one scalar, 3 the file is missing
struct Doc { std::vector<Entry> e; bool missing, scalar; };
struct Tree : SoDa::PropertyTreeYAML { Node *top() { return root; } };
struct Model { std::vector<Entry> kids; std::vector<std::string> el; };
static YAML::Node build(const Doc &d) { if (d.scalar) return YAML::Node(d.e[0].text); YAML::Node n(YAML::NodeType::Map); for (auto &e : d.e) { if (e.form == 0) n.add(YAML::Node(e.key), YAML::Node(e.text)); else if (e.form == 1) { YAML::Node q(YAML::NodeType::Sequence); for (auto &x : e.el) q.push_back(YAML::Node(x)); n.add(YAML::Node(e.key), q); } else { YAML::Node m(YAML::NodeType::Map); m.add(YAML::Node("in"), YAML::Node(e.text)); n.add(YAML::Node(e.key), m); } } return n; }
static void read(Tree &t, Model &m, const Doc &d) { YAML::stub::missing() = d.missing; YAML::stub::document() = build(d); bool raised = false, foreign = false; try { t.readFile("f.yaml"); } catch (SoDa::PropertyTree::FileNotFound &) { raised = true; } catch (...) { foreign = true; } sym_assert(!foreign && raised == d.missing, "the file-not-found exception exactly for a missing file"); if (d.missing) { sym_cover("missing file"); return; }
  if (d.scalar) { m.el.push_back(d.e[0].text); sym_cover("scalar document"); return; }
  for (auto &e : d.e) { if (e.form == 1) { for (auto &x : e.el) m.el.push_back(x); continue; } bool hit = false; for (auto &o : m.kids) if (o.key == e.key) { o = e; hit = true; sym_cover("replaced"); break; } if (!hit) m.kids.push_back(e); } }
static void check(Tree &t, const Model &m) { Node *n = t.top(); sym_assert(n->dictionary.size() == m.kids.size(), "exactly the keys read so far"); sym_assert(n->prop_list.size() == m.el.size(), "exactly the elements read so far"); auto it = n->prop_list.begin(); for (size_t i = 0; i < m.el.size() && it != n->prop_list.end(); i++, ++it) sym_assert_eq((*it)->val_string, m.el[i], "the elements in the order read");
  for (auto &e : m.kids) { Node *c = n->getProp(e.key, false); sym_assert(c != 0 && c->is_terminal == (e.form == 0), "found under its key"); if (!c) return; if (e.form == 0) sym_assert_eq(c->val_string, e.text, "the text read last"); else { Node *i = n->getProp(e.key + ":in", false); sym_assert(i != 0, "found under its path"); if (i) sym_assert_eq(i->val_string, e.text, "the text read last"); } } }
extern "C" void sym_main() {
  std::vector<Doc> ds(sym_param(0)); unsigned len = sym_param(2); bool first = true;
  for (auto &d : ds) { d.missing = d.scalar = false; std::vector<std::string> ks; for (unsigned k = 0; k < sym_param(1); k++) { Entry e; e.form = first && sym_param(4) ? sym_param(4) - 1 : (int)sym_choice(5); first = false; if (e.form == 3) { d.missing = true; break; } if (e.form == 4 && k == 0) d.scalar = true; e.key = sym_string(len); for (char c : e.key) sym_assume(c != ':'); for (auto &x : ks) sym_assume(!sym_eq(x, e.key)); ks.push_back(e.key); e.text = sym_string(len); if (e.form == 1) { unsigned m = sym_choice(3); for (unsigned j = 0; j < m; j++) e.el.push_back(sym_string(1)); } if (e.form == 4 && k) e.form = 0; d.e.push_back(e); if (d.scalar) break; } }
  Tree a, b; Model ma, mb; for (auto &d : ds) { read(a, ma, d); check(a, ma); check(b, mb); } if (sym_param(3)) { for (size_t k = ds.size(); k-- > 0;) { read(b, mb, ds[k]); check(b, mb); check(a, ma); } sym_cover("two trees"); }
  sym_observe(ma.kids.size()); sym_observe(ma.el.size()); sym_cover("done");
}
