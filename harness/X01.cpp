// X01: exceptions.  param(0) = which, param(1) = length of the names (arbitrary bytes but no NUL; from 10 on: letters with two arbitrary bytes)
#include "ref.hpp"
#include <sstream>
#include "Barrier.hxx"
#include "MailBox.hxx"
#include "PropertyTree.hxx"
#include "Format.hxx"
#include "vt.h"
typedef SoDa::PropertyTree::PropNode Node;
struct Tree : SoDa::PropertyTree { void readFile(const std::string &f) { throw SoDa::PropertyTree::FileNotFound(f); } void writeFile(const std::string &) {} Node *top() { return root; } };
static bool contains(const std::string &s, const std::string &t) { bool hit = t.empty(); for (size_t i = 0; i + t.size() <= s.size(); i++) hit |= sym_eq(s.substr(i, t.size()), t); return hit; }
static std::string name() { std::string s = sym_param(1) >= 10 ? sym_long(sym_param(1), 2) : sym_string(sym_param(1)); for (char c : s) sym_assume(c != 0); return s; }
static std::string what; static int as;   // bits: 1 the specific type, 2 the type of the component, 4 SoDa::Exception, 8 std::exception
template <class Specific, class Component, class F> static void expect(F f) { as = 0; what = ""; bool thrown = false;
  try { f(); } catch (Specific &e) { thrown = true; as |= 1; what = e.what(); } catch (...) { thrown = true; } sym_assert(thrown, "an exception"); sym_assert(as == 1, "of the specific type");
  try { f(); } catch (Component &e) { as |= 2; sym_assert_eq(what, e.what(), "the same text every time"); } catch (...) { } 
  try { f(); } catch (SoDa::Exception &e) { as |= 4; sym_assert_eq(what, e.what(), "the same text every time"); } catch (...) { }
  try { f(); } catch (std::exception &e) { as |= 8; sym_assert_eq(what, e.what(), "the same text every time"); } catch (...) { }
  sym_assert(as == 15, "caught as the component's, the library's and the standard exception"); if (sym_param(0) != 4) sym_observe(what); /* (4: the model does not demangle type names) */ sym_cover("caught"); }
SoDa::Barrier *bar; int got; unsigned long lim; std::string text;
static void waiter(int, void *) { __hb_off(); SoDa::Barrier *b = bar; unsigned long l = lim; __hb_on(); int r = 0; std::string w; try { b->wait(l); } catch (SoDa::Barrier::Timeout &e) { r = 1; w = e.what(); } catch (SoDa::Barrier::Corrupt &e) { r = 2; w = e.what(); } catch (...) { r = 3; } __hb_off(); got = r; text = w; __hb_on(); }
struct Other { int x; };
extern "C" void sym_main() {
  std::string a = name();
  switch (sym_param(0)) {
  case 0: { Tree t; expect<SoDa::PropertyTree::FileNotFound, SoDa::Exception>([&]() { t.readFile(a); }); sym_assert(contains(what, a), "the file is named"); break; }
  case 1: { Tree t; t.top()->dictionary["known"] = new Node(t.top(), "3", true); std::string p = sym_choice(2) ? "known:" + a : a; for (char c : a) sym_assume(c != ':'); sym_assume(a.size() > 0 && p != "known"); int v; expect<Node::PropertyNotFound, SoDa::Exception>([&]() { t.get(v, p, true); }); sym_assert(contains(what, p), "the path is named"); break; }
  case 2: { Tree t; for (char c : a) sym_assume(c != ':'); std::string b = name(); Node *in = new Node(t.top(), "", false); t.top()->dictionary[a] = in; Node *leaf = new Node(in, "x" + b, true); in->dictionary["leaf"] = leaf; int v; expect<Node::BadPropertyType, SoDa::Exception>([&]() { leaf->get(v, true); }); sym_assert(contains(what, a.empty() ? "leaf" : a + ":leaf"), "the path is named"); sym_assert(contains(what, "x" + b), "the text is shown"); break; }
  case 3: { std::string b = name(); SoDa::MailBox<int> m(a), o(b); auto s = o.subscribe(); unsigned op = sym_choice(4); expect<SoDa::MailBoxBase::SubscriptionMismatch, SoDa::MailBoxBase::Exception>([&]() { if (op == 0) m.get(s); else if (op == 1) m.readyCount(s); else if (op == 2) m.clear(s); else m.put(std::make_shared<int>(1), s); }); sym_assert(contains(what, a), "the mailbox is named"); sym_assert(contains(what, b), "the mailbox of the subscription is named"); break; }
  case 4: { std::shared_ptr<SoDa::MailBoxBase> p = SoDa::makeMailBox<int>(a); sym_assert_eq(p->getName(), a, "the name of the mailbox"); expect<SoDa::MailBoxBase::BadConversion, SoDa::MailBoxBase::Exception>([&]() { SoDa::MailBoxBase::convert<SoDa::MailBox<Other>>(p); }); sym_assert(contains(what, a), "the mailbox is named"); break; }
  case 5: { unsigned k = sym_param(2); lim = 1 + (sym_u64() & ((1ull << k) - 1)); bar = new SoDa::Barrier(a, 2); got = 0; int blocked = vt_run(1, waiter, 0, 0); sym_assert(blocked == 0 && got == 1, "time-out"); sym_assert(contains(text, a), "the barrier is named"); std::ostringstream n; n << lim; sym_assert(contains(text, n.str()), "the limit is shown"); got = 0; blocked = vt_run(1, waiter, 0, 0); sym_assert(blocked == 0 && got == 2, "corrupt"); sym_assert(contains(text, a), "the barrier is named"); sym_cover("barrier"); delete bar; break; }
  default: { SoDa::Format f("%0 %1"); f.addS(a); bool ok = false; expect<SoDa::Format::BadFormat, SoDa::Exception>([&]() { f.str(true); }); (void)ok; }
  }
}
