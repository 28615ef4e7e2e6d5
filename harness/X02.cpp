// X02: different objects used by different threads at the same time.  param(0) = threads, param(1) = what the first one does (99: chosen), param(2) = what the others do (99: chosen), param(3) = departures from round-robin (0: two)
#include "opt.hpp"
#include <sstream>
#include "Utils.hxx"
#include "Format.hxx"
#include "PropertyTree.hxx"
#include "MailBox.hxx"
#include "vt.h"
// (not static: see M04.cpp)
typedef SoDa::PropertyTree::PropNode Node;
struct Tree : SoDa::PropertyTree { void readFile(const std::string &f) { throw SoDa::PropertyTree::FileNotFound(f); } void writeFile(const std::string &) {} Node *top() { return root; } };
int kind[8]; uint32_t num[8]; char ch[8]; std::string *out[8];
static std::string work(int k, uint32_t n, char c) { std::string s(1, c); 
  switch (k) {
  case 0: { SoDa::Format f("%0 %1 %2|%3"); f.addI((int)n, 12, ',').addU(n & 255, 'x', 4).addS(s, -3); std::string a = f.str(); f.addC(c); std::ostringstream o; o << f; f.reset(); return a + o.str() + f.str(); }
  case 1: { SoDa::Format f("%0;%1"); f.addF((double)(n & 3) * 1234.5, 'e', 12, 5).addF(2.5, 'f', 8, 2); return f.str(); }
  case 2: { std::list<std::string> l = SoDa::split(" a " + s + ",b ", ",", true); std::string r; for (auto &x : l) r += x + "|"; return r + SoDa::squashSpaces(" " + s + "  x ") + std::to_string(SoDa::splitVec(s + ";z", ";").size()); }
  case 3: { int i; bool p; std::string t; std::vector<int> v; SoDa::Options o; o.addP(&p, "pp", 'p').add<int>(&i, "int", 'i', 5).add<std::string>(&t, "str", 's').addV<int>(&v, "vec", 'v'); bool ok = o.parse("-p --int -12 -s q" + std::string(c > 'a' && c < 'z' ? s : "w") + " -v 3 rest"); std::ostringstream h; o.printHelp(h); return std::to_string(ok) + std::to_string(i) + t + std::to_string(v.size()) + o.getPosArg(0) + h.str(); }
  case 4: { Tree t; Node *a = new Node(t.top(), "", false); t.top()->dictionary["a"] = a; a->dictionary["b" + s] = new Node(a, "17", true); a->dictionary["c"] = new Node(a, "text", true); int v = 0; bool ok = t.get(v, "a:c"), two = t.get(v, "a:b" + s); std::ostringstream d; t.dump(d); std::string w; try { t.get(v, "a:nope", true); } catch (SoDa::Exception &e) { w = e.what(); } return std::to_string(ok) + std::to_string(two) + std::to_string(v) + a->dictionary["c"]->getPathName() + d.str() + w; }
  default: { SoDa::MailBox<int> m(s), q("other"); auto u = m.subscribe(); m.put(std::make_shared<int>((int)(n & 7))); std::string w; try { q.get(u); } catch (SoDa::Exception &e) { w = e.what(); } auto g = m.get(u); return std::to_string(*g) + w + std::to_string(m.subscriberCount()); } } }
static void thread(int t, void *) { __hb_off(); int k = kind[t]; uint32_t n = num[t]; char c = ch[t]; __hb_on(); std::string r = work(k, n, c); __hb_off(); *out[t] = r; __hb_on(); }
extern "C" void sym_main() {
  int T = sym_param(0); for (int t = 0; t < T; t++) { unsigned p = sym_param(t ? 2 : 1); kind[t] = p == 99 ? sym_choice(6) : p; num[t] = kind[t] == 0 ? (sym_u8() << 12) : sym_u8() & 7; ch[t] = (char)sym_u8(); sym_assume((ch[t] != 0) & (ch[t] != '"') & (ch[t] != ':')); out[t] = new std::string(); }
  vt_deviations(sym_param(3) ? (int)sym_param(3) : 2); int blocked = vt_run(T, thread, 0, 0); sym_assert(blocked == 0, "every thread finishes");
  for (int t = 0; t < T; t++) { sym_assert_eq(*out[t], work(kind[t], num[t], ch[t]), "the same result as alone"); sym_observe(*out[t]); } sym_cover("done");
}
