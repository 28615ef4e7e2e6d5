// Replacement for the parts of libstdc++ / libc that live in shared objects (no bitcode available):
// compiled to bitcode and linked with the code under test for symbolic execution.
#include <string>
#include <stdexcept>
#include <system_error>
#include <new>
#include <typeinfo>
#include <memory>
#include <functional>
#include <list>
#include <map>
#include <set>
#include <mutex>
#include <condition_variable>
#include <chrono>
#include <exception>
#include <unordered_map>
#include <thread>
#include <vector>
#include <future>
#include "include/symstream.hpp"
#include <cxxabi.h>
#include <pthread.h>
#include <time.h>
#include <errno.h>
#include <stdlib.h>
#pragma clang diagnostic ignored "-Wall"
extern "C" {
void *__eng_endcatch(void); void *__eng_excdtor(void *);
void __cxa_end_catch() { void *p = __eng_endcatch(); if (p) { void (*d)(void *) = (void (*)(void *))__eng_excdtor(p); if (d) d(p); __cxxabiv1::__cxa_free_exception(p); } }
int __cxa_atexit(void (*)(void *), void *, void *) { return 0; } int atexit(void (*)(void)) { return 0; } int __cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
void *__dso_handle;
char __libc_single_threaded = 0;
char *__cxa_demangle(const char *n, char *, size_t *, int *st) { if (st) *st = 0; size_t k = strlen(n); char *r = (char *)malloc(k + 1); memcpy(r, n, k + 1); return r; }
void __cxa_bad_cast() { throw std::bad_cast(); } void __cxa_bad_typeid() { throw std::bad_typeid(); } void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
}
static unsigned long cow(const char *s, size_t n) { char *r = (char *)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return (unsigned long)r; }
namespace std {
template class basic_string<char>;
// ---- exceptions
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; } bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "std::bad_cast"; } bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; } bad_weak_ptr::~bad_weak_ptr() noexcept {} const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}
#define PMSG(o) (*(char **)&(o)._M_msg)
logic_error::logic_error(const string &s) { PMSG(*this) = (char *)cow(s.data(), s.size()); } logic_error::logic_error(const char *s) { PMSG(*this) = (char *)cow(s, strlen(s)); } logic_error::logic_error(const logic_error &o) noexcept { PMSG(*this) = (char *)cow(PMSG(o), strlen(PMSG(o))); } logic_error &logic_error::operator=(const logic_error &o) noexcept { if (this != &o) { free(PMSG(*this)); PMSG(*this) = (char *)cow(PMSG(o), strlen(PMSG(o))); } return *this; }
logic_error::~logic_error() noexcept { free(PMSG(*this)); } const char *logic_error::what() const noexcept { return PMSG(*this); }
runtime_error::runtime_error(const string &s) { PMSG(*this) = (char *)cow(s.data(), s.size()); } runtime_error::runtime_error(const char *s) { PMSG(*this) = (char *)cow(s, strlen(s)); } runtime_error::runtime_error(const runtime_error &o) noexcept { PMSG(*this) = (char *)cow(PMSG(o), strlen(PMSG(o))); } runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { if (this != &o) { free(PMSG(*this)); PMSG(*this) = (char *)cow(PMSG(o), strlen(PMSG(o))); } return *this; }
runtime_error::~runtime_error() noexcept { free(PMSG(*this)); } const char *runtime_error::what() const noexcept { return PMSG(*this); }
logic_error::logic_error(logic_error &&o) noexcept { PMSG(*this) = (char *)cow(PMSG(o), strlen(PMSG(o))); } runtime_error::runtime_error(runtime_error &&o) noexcept { PMSG(*this) = (char *)cow(PMSG(o), strlen(PMSG(o))); }
__cow_string::__cow_string() : _M_p(0) {} __cow_string::__cow_string(const std::string &s) : _M_p(0) {} __cow_string::__cow_string(const __cow_string &) noexcept : _M_p(0) {} __cow_string::~__cow_string() {}
#define EXC(C, B) C::C(const string &s) : B(s) {} C::C(const char *s) : B(s) {} C::~C() noexcept {}
EXC(domain_error, logic_error) EXC(invalid_argument, logic_error) EXC(length_error, logic_error) EXC(out_of_range, logic_error) EXC(range_error, runtime_error) EXC(overflow_error, runtime_error) EXC(underflow_error, runtime_error)
namespace { struct Gcat : error_category { const char *n; Gcat(const char *x) : n(x) {} const char *name() const noexcept override { return n; } string message(int) const override { return "error"; } }; Gcat *gc, *scat; }
inline namespace _V2 { error_category::~error_category() noexcept {} const error_category &generic_category() noexcept { if (!gc) gc = new Gcat("generic"); return *gc; } const error_category &system_category() noexcept { if (!scat) scat = new Gcat("system"); return *scat; }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; } bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; } error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); } 
__cow_string error_category::_M_message(int) const { return __cow_string(); } }
system_error::~system_error() noexcept {}
bool uncaught_exception() noexcept { return false; } int uncaught_exceptions() noexcept { return 0; }
// ---- throw helpers
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_domain_error(const char *s) { throw domain_error(s); } void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_length_error(const char *s) { throw length_error(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); } void __throw_range_error(const char *s) { throw range_error(s); } void __throw_overflow_error(const char *s) { throw overflow_error(s); } void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }
// ---- list nodes
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this == l) return; l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) { if (y._M_next != &y) { _List_node_base *t = x._M_next; x._M_next = y._M_next; y._M_next = t; t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
// ---- red-black trees
typedef _Rb_tree_node_base RB;
RB *_Rb_tree_increment(RB *x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { RB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const RB *_Rb_tree_increment(const RB *x) noexcept { return _Rb_tree_increment((RB *)x); }
RB *_Rb_tree_decrement(RB *x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { RB *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { RB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const RB *_Rb_tree_decrement(const RB *x) noexcept { return _Rb_tree_decrement((RB *)x); }
static void rotl(RB *x, RB *&root) { RB *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(RB *x, RB *&root) { RB *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, RB *x, RB *p, RB &h) noexcept {
  RB *&root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) { RB *const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { RB *const y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
    else { RB *const y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } } }
  root->_M_color = _S_black; }
RB *_Rb_tree_rebalance_for_erase(RB *const z, RB &h) noexcept {
  RB *&root = h._M_parent; RB *&lm = h._M_left; RB *&rm = h._M_right; RB *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x; if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { RB *m = x; while (m->_M_left) m = m->_M_left; lm = m; } } if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { RB *m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
  if (y->_M_color != _S_red) { while (x != root && (x == 0 || x->_M_color == _S_black)) {
      if (x == xp->_M_left) { RB *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { RB *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; } else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } } }
    if (x) x->_M_color = _S_black; }
  return y; }
// ---- hash tables (the order of elements is not modelled faithfully; callers must not depend on it)
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + c[i]; return h; }
namespace __detail { size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949}; for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; } return n; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t w = ne + ni; size_t b = _M_next_bkt(w > nb * 2 ? w : nb * 2); return {true, b}; } return {false, 0}; } }
// ---- synchronisation and time
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() { pthread_cond_destroy((pthread_cond_t *)this); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t *)this); } void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t *)this); }
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait((pthread_cond_t *)this, l.mutex()->native_handle()); }
namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { timespec t; clock_gettime(1, &t); return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec))); } system_clock::time_point system_clock::now() noexcept { timespec t; clock_gettime(0, &t); return time_point(duration(chrono::seconds(t.tv_sec) + chrono::nanoseconds(t.tv_nsec))); } } }
bool _Sp_make_shared_tag::_S_eq(const type_info &) noexcept { return false; }
// ---- streams
#define IB(T, N) const ios_base::T ios_base::N;
IB(fmtflags, boolalpha) IB(fmtflags, dec) IB(fmtflags, fixed) IB(fmtflags, hex) IB(fmtflags, internal) IB(fmtflags, left) IB(fmtflags, oct) IB(fmtflags, right) IB(fmtflags, scientific) IB(fmtflags, showbase) IB(fmtflags, showpoint) IB(fmtflags, showpos) IB(fmtflags, skipws) IB(fmtflags, unitbuf) IB(fmtflags, uppercase) IB(fmtflags, adjustfield) IB(fmtflags, basefield) IB(fmtflags, floatfield)
IB(iostate, goodbit) IB(iostate, badbit) IB(iostate, eofbit) IB(iostate, failbit) IB(openmode, app) IB(openmode, ate) IB(openmode, binary) IB(openmode, in) IB(openmode, out) IB(openmode, trunc) IB(seekdir, beg) IB(seekdir, cur) IB(seekdir, end)
static locale the_classic; const locale &locale::classic() { return the_classic; }
struct NullBuf : streambuf { NullBuf() { null_ = true; } };
__attribute__((init_priority(101))) static NullBuf nullb; __attribute__((init_priority(102))) ostream cout(&nullb), cerr(&nullb), clog(&nullb); __attribute__((init_priority(102))) istream cin(&nullb);
}
