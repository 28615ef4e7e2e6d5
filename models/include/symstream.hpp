// Model of the char streams of the C++ library (classic locale), written so that symbolic values
// cause few forks.  Validated against the real library by replaying sample paths natively.
#pragma once
#include <string>
// what the real stream and regex headers bring in as well
#include <vector>
#include <list>
#include <map>
#include <set>
#include <deque>
#include <queue>
#include <stack>
#include <bitset>
#include <algorithm>
#include <memory>
#include <functional>
#include <tuple>
#include <utility>
#include <iterator>
#include <cctype>
#include <cstdlib>
#include <cstdio>
#include <ctime>
#include <cmath>
#include <cerrno>
#include <iosfwd>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <limits>
#include <type_traits>
#include <cstring>
#include <cstdint>
#include <climits>
#include <cfloat>
#include <cwchar>
extern "C" int __sym_fmt_double(char *buf, double v, int fmt, int prec, int flags);
extern "C" int __sym_parse_double(const char *p, size_t n, double *out);
namespace std {
typedef ptrdiff_t __sym_streamsize;
inline bool __mspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5u); }
class locale { public: locale() {} explicit locale(const char *) {} static const locale &classic(); static locale global(const locale &l) { return l; } std::string name() const { return "C"; } };
template <class C> inline bool isspace(C c, const locale &) { return __mspace((unsigned char)c); }
template <class C> inline bool isdigit(C c, const locale &) { return (unsigned)(c - '0') < 10u; }
template <class C> inline bool isalpha(C c, const locale &) { return (unsigned)((c | 32) - 'a') < 26u; }
template <class C> inline C toupper(C c, const locale &) { return (C)(c - (((unsigned)(c - 'a') < 26u) << 5)); }
template <class C> inline C tolower(C c, const locale &) { return (C)(c + (((unsigned)(c - 'A') < 26u) << 5)); }
class ios_base {
public:
  typedef unsigned int fmtflags; typedef unsigned int iostate; typedef unsigned int openmode; typedef int seekdir;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8, internal = 16, left = 32, oct = 64, right = 128, scientific = 256, showbase = 512, showpoint = 1024, showpos = 2048, skipws = 4096, unitbuf = 8192, uppercase = 16384, adjustfield = 16 | 32 | 128, basefield = 2 | 8 | 64, floatfield = 4 | 256;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public system_error { public: explicit failure(const string &s, const error_code &e = error_code(1, generic_category())) : system_error(e, s) {} };
  class Init { public: Init() {} ~Init() {} };
  fmtflags flags() const { return fl_; } fmtflags flags(fmtflags f) { fmtflags o = fl_; fl_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; } void unsetf(fmtflags f) { fl_ &= ~f; }
  streamsize precision() const { return prec_; } streamsize precision(streamsize p) { streamsize o = prec_; prec_ = p; return o; }
  streamsize width() const { return wid_; } streamsize width(streamsize p) { streamsize o = wid_; wid_ = p; return o; }
  locale getloc() const { return locale(); } static bool sync_with_stdio(bool = true) { return true; }
  virtual ~ios_base() {}
protected:
  ios_base() : fl_(dec | skipws), prec_(6), wid_(0) {}
  fmtflags fl_; streamsize prec_, wid_;
};
template <> class basic_streambuf<char, char_traits<char>> {
public:
  string b_; size_t g_, p_; unsigned mode_; bool null_;
  typedef char char_type; typedef int int_type; typedef char_traits<char> traits_type;
  basic_streambuf() : g_(0), p_(0), mode_(8 | 16), null_(false) {}
  virtual ~basic_streambuf() {}
  int sgetc() { if (!(mode_ & 8) || g_ >= b_.size()) return -1; return (unsigned char)b_[g_]; }
  int sbumpc() { int c = sgetc(); if (c != -1) g_++; return c; }
  int snextc() { if (sbumpc() == -1) return -1; return sgetc(); }
  int sungetc() { if (g_ == 0) return -1; g_--; return (unsigned char)b_[g_]; }
  streamsize in_avail() { return (streamsize)(b_.size() - g_); }
  int sputc(char c) { if (!(mode_ & 16)) return -1; if (null_) return (unsigned char)c; if (p_ < b_.size()) b_[p_] = c; else b_.push_back(c); p_++; return (unsigned char)c; }
  streamsize sputn(const char *s, streamsize n) { if (!(mode_ & 16)) return 0; if (null_) return n; if (p_ == b_.size()) { b_.append(s, n); p_ += n; } else for (streamsize i = 0; i < n; i++) sputc(s[i]); return n; }
  streamsize sgetn(char *s, streamsize n) { streamsize i = 0; for (; i < n; i++) { int c = sbumpc(); if (c == -1) break; s[i] = (char)c; } return i; }
  int pubsync() { return 0; }
};
template <> class basic_stringbuf<char, char_traits<char>, allocator<char>> : public basic_streambuf<char> {
public:
  explicit basic_stringbuf(unsigned m = 8 | 16) { mode_ = m; } explicit basic_stringbuf(const string &s, unsigned m = 8 | 16) { mode_ = m; b_ = s; if (m & 3) p_ = b_.size(); }
  string str() const { return b_; } void str(const string &s) { b_ = s; g_ = 0; p_ = (mode_ & 3) ? s.size() : 0; }
};
template <> class basic_ios<char, char_traits<char>> : public ios_base {
public:
  typedef char char_type; typedef int int_type; typedef char_traits<char> traits_type; typedef streampos pos_type; typedef streamoff off_type;
  explicit basic_ios(streambuf *b) { init(b); }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; } void clear(iostate s = 0) { st_ = sb_ ? s : (s | badbit); if (st_ & exc_) throw failure("basic_ios::clear"); } void setstate(iostate s) { clear(st_ | s); }
  bool good() const { return st_ == 0; } bool eof() const { return (st_ & eofbit) != 0; } bool fail() const { return (st_ & (badbit | failbit)) != 0; } bool bad() const { return (st_ & badbit) != 0; }
  iostate exceptions() const { return exc_; } void exceptions(iostate e) { exc_ = e; clear(st_); }
  char fill() const { return fill_; } char fill(char c) { char o = fill_; fill_ = c; return o; }
  streambuf *rdbuf() const { return sb_; } streambuf *rdbuf(streambuf *b) { streambuf *o = sb_; sb_ = b; clear(); return o; }
  ostream *tie() const { return nullptr; } ostream *tie(ostream *) { return nullptr; }
  basic_ios &copyfmt(const basic_ios &r) { fl_ = r.fl_; prec_ = r.prec_; wid_ = r.wid_; fill_ = r.fill_; exc_ = r.exc_; return *this; }
  locale imbue(const locale &l) { return l; } char widen(char c) const { return c; } char narrow(char c, char) const { return c; }
  basic_ios(const basic_ios &) = delete; basic_ios &operator=(const basic_ios &) = delete;
protected:
  basic_ios() : sb_(nullptr), st_(0), exc_(0), fill_(' ') {}
  void init(streambuf *b) { sb_ = b; st_ = b ? 0 : badbit; exc_ = 0; fill_ = ' '; }
  streambuf *sb_; iostate st_, exc_; char fill_;
};
template <> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char> {
public:
  explicit basic_ostream(streambuf *b) { init(b); }
  virtual ~basic_ostream() {}
  class sentry { bool ok_; public: explicit sentry(basic_ostream &o) : ok_(o.good()) {} explicit operator bool() const { return ok_; } };
  basic_ostream &put(char c) { if (good()) { if (sb_->sputc(c) == -1) setstate(badbit); } return *this; }
  basic_ostream &write(const char *s, streamsize n) { if (good()) { if (sb_->sputn(s, n) != n) setstate(badbit); } return *this; }
  basic_ostream &flush() { return *this; }
  streampos tellp() { return fail() ? -1 : (streamoff)sb_->p_; } basic_ostream &seekp(streampos p) { sb_->p_ = (size_t)(streamoff)p; return *this; }
  basic_ostream &seekp(streamoff o, int dir) { sb_->p_ = (size_t)(o + (dir == 0 ? 0 : dir == 1 ? (streamoff)sb_->p_ : (streamoff)sb_->b_.size())); return *this; }
  // formatted text: 'pre' characters (sign / base prefix) stay in front of internal padding
  basic_ostream &ins_(const char *s, size_t n, size_t pre = 0) {
    if (!good()) { setstate(failbit); return *this; }
    streamsize w = wid_; wid_ = 0; size_t pad = w > (streamsize)n ? (size_t)w - n : 0; fmtflags a = fl_ & adjustfield; size_t done = 0;
    if (pad && a != left) { if (a == internal) { raw_(s, pre); done = pre; } fill_n_(pad); }
    raw_(s + done, n - done); if (pad && a == left) fill_n_(pad); return *this; }
  template <class U> basic_ostream &putint_(U mag, bool neg, bool sgn) {
    static const uint64_t P[20] = {1ull, 10ull, 100ull, 1000ull, 10000ull, 100000ull, 1000000ull, 10000000ull, 100000000ull, 1000000000ull, 10000000000ull, 100000000000ull, 1000000000000ull, 10000000000000ull, 100000000000000ull, 1000000000000000ull, 10000000000000000ull, 100000000000000000ull, 1000000000000000000ull, 10000000000000000000ull};
    char b[72]; size_t n = 0, pre = 0; fmtflags base = fl_ & basefield; bool up = (fl_ & uppercase) != 0;
    if (base == hex) { int k = 1; while (k < (int)sizeof(U) * 2 && (mag >> (4 * k)) != 0) k++; if ((fl_ & showbase) && mag != 0) { b[n++] = '0'; b[n++] = up ? 'X' : 'x'; pre = 2; } int gap = up ? 7 : 39; for (int i = k - 1; i >= 0; i--) { int d = (int)((mag >> (4 * i)) & 15); b[n++] = (char)('0' + d + ((d > 9) ? gap : 0)); } }
    else if (base == oct) { int k = 1, mx = ((int)sizeof(U) * 8 + 2) / 3; while (k < mx && (mag >> (3 * k)) != 0) k++; if ((fl_ & showbase) && mag != 0) b[n++] = '0'; for (int i = k - 1; i >= 0; i--) b[n++] = (char)('0' + ((mag >> (3 * i)) & 7)); }
    else { int mx = sizeof(U) == 8 ? 20 : sizeof(U) == 4 ? 10 : 5; int k = 1; while (k < mx && mag >= (U)P[k]) k++; if (neg) { b[n++] = '-'; pre = 1; } else if (sgn && (fl_ & showpos)) { b[n++] = '+'; pre = 1; } for (int i = k - 1; i >= 0; i--) b[n++] = (char)('0' + (mag / (U)P[i]) % 10u); }
    return ins_(b, n, pre); }
  template <class S, class U> basic_ostream &putsigned_(S v) { fmtflags base = fl_ & basefield; if (base == hex || base == oct) return putint_<U>((U)v, false, true); if (v < 0) return putint_<U>((U)0 - (U)v, true, true); return putint_<U>((U)v, false, true); }
  basic_ostream &putdouble_(double v) {
    char b[512]; fmtflags ff = fl_ & floatfield; int fmt = ff == fixed ? 1 : ff == scientific ? 2 : ff == floatfield ? 3 : 0;
    int n = __sym_fmt_double(b, v, fmt, (int)prec_, ((fl_ & showpos) ? 1 : 0) | ((fl_ & showpoint) ? 2 : 0) | ((fl_ & uppercase) ? 4 : 0));
    return ins_(b, n, (b[0] == '-' || b[0] == '+') ? 1 : 0); }
  basic_ostream &operator<<(bool v) { if (fl_ & boolalpha) return v ? ins_("true", 4) : ins_("false", 5); return putint_<unsigned long>(v ? 1 : 0, false, true); }
  basic_ostream &operator<<(short v) { fmtflags base = fl_ & basefield; if (base == hex || base == oct) return putint_<unsigned>((unsigned short)v, false, true); return putsigned_<int, unsigned>(v); }
  basic_ostream &operator<<(unsigned short v) { return putint_<unsigned>(v, false, false); }
  basic_ostream &operator<<(int v) { return putsigned_<int, unsigned>(v); } basic_ostream &operator<<(unsigned v) { return putint_<unsigned>(v, false, false); }
  basic_ostream &operator<<(long v) { return putsigned_<long, unsigned long>(v); } basic_ostream &operator<<(unsigned long v) { return putint_<unsigned long>(v, false, false); }
  basic_ostream &operator<<(long long v) { return putsigned_<long, unsigned long>(v); } basic_ostream &operator<<(unsigned long long v) { return putint_<unsigned long>(v, false, false); }
  basic_ostream &operator<<(double v) { return putdouble_(v); } basic_ostream &operator<<(float v) { return putdouble_(v); } basic_ostream &operator<<(long double v) { return putdouble_((double)v); }
  basic_ostream &operator<<(const void *p) { fmtflags o = fl_; fl_ = (fl_ & ~(basefield | uppercase)) | hex | showbase; putint_<unsigned long>((unsigned long)p, false, false); fl_ = o; return *this; }
  basic_ostream &operator<<(streambuf *s) { if (!s || s->g_ >= s->b_.size()) { setstate(failbit); return *this; } raw_(s->b_.data() + s->g_, s->b_.size() - s->g_); s->g_ = s->b_.size(); return *this; }
  basic_ostream &operator<<(nullptr_t) { return ins_("nullptr", 7); }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); } basic_ostream &operator<<(basic_ios<char> &(*f)(basic_ios<char> &)) { f(*this); return *this; } basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
protected:
  basic_ostream() {}
  void raw_(const char *s, size_t n) { if (n && sb_->sputn(s, (streamsize)n) != (streamsize)n) setstate(badbit); }
  void fill_n_(size_t n) { string t(n, fill_); raw_(t.data(), n); }
};
inline ostream &operator<<(ostream &o, const string &s) { return o.ins_(s.data(), s.size()); }
inline ostream &operator<<(ostream &o, const char *s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o.ins_(s, strlen(s)); }
inline ostream &operator<<(ostream &o, const signed char *s) { return o << (const char *)s; } inline ostream &operator<<(ostream &o, const unsigned char *s) { return o << (const char *)s; }
inline ostream &operator<<(ostream &o, char c) { return o.ins_(&c, 1); } inline ostream &operator<<(ostream &o, signed char c) { return o << (char)c; } inline ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
template <class O, class T> inline typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base, O>::value, O &&>::type operator<<(O &&o, const T &v) { o << v; return static_cast<O &&>(o); }
inline ostream &endl(ostream &o) { o.put('\n'); return o; } inline ostream &ends(ostream &o) { o.put('\0'); return o; } inline ostream &flush(ostream &o) { return o; }
template <> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char> {
public:
  explicit basic_istream(streambuf *b) : gc_(0) { init(b); }
  virtual ~basic_istream() {}
  class sentry { bool ok_; public: explicit sentry(basic_istream &i, bool noskip = false) { ok_ = i.pre_(noskip); } explicit operator bool() const { return ok_; } };
  bool pre_(bool noskip = false) { if (!good()) { setstate(failbit); return false; } if (!noskip && (fl_ & skipws)) { int c = sb_->sgetc(); while (c != -1 && __mspace(c)) c = sb_->snextc(); if (c == -1) { setstate(failbit | eofbit); return false; } } return true; }
  // num_get for integers: magnitude/sign with overflow detection
  template <class U> bool scan_(U &mag, bool &neg, bool &over) {
    int base = 10; fmtflags bf = fl_ & basefield; bool any = false; mag = 0; neg = false; over = false; int c = sb_->sgetc();
    if (c == '-' || c == '+') { neg = c == '-'; c = sb_->snextc(); }
    if (bf == hex) base = 16; else if (bf == oct) base = 8; else if (bf == 0) { base = 10; }
    if ((bf == hex || bf == 0) && c == '0') { any = true; c = sb_->snextc(); if (c == 'x' || c == 'X') { any = false; base = 16; c = sb_->snextc(); } else if (bf == 0) base = 8; }
    const U mx = (U)~(U)0;
    while (c != -1) { unsigned d; if ((unsigned)(c - '0') < (base < 10 ? (unsigned)base : 10u)) d = c - '0'; else if (base == 16 && (unsigned)((c | 32) - 'a') < 6u) d = (c | 32) - 'a' + 10; else break;
      any = true; if (!over) { if (mag > (U)(mx / base)) over = true; else { U m = mag * (U)base; if (m > (U)(mx - d)) over = true; else mag = m + d; } } c = sb_->snextc(); }
    if (c == -1) eofnext_ = true; return any; }
  template <class S, class U> void getsigned_(S &v, U maxv) { // result type S computed through U = unsigned long
    eofnext_ = false; if (!pre_()) return; U m; bool neg, over; iostate e = 0;
    if (!scan_<U>(m, neg, over)) { v = 0; e |= failbit; }
    else if (over || m > maxv + (neg ? 1u : 0u)) { v = neg ? (S)(-(S)maxv - 1) : (S)maxv; e |= failbit; }
    else v = neg ? (S)((U)0 - m) : (S)m;
    if (eofnext_) e |= eofbit; if (e) setstate(e); }
  template <class S, class U> void getunsigned_(S &v, U maxv) { eofnext_ = false; if (!pre_()) return; U m; bool neg, over; iostate e = 0;
    if (!scan_<U>(m, neg, over)) { v = 0; e |= failbit; } else if (over || m > maxv) { v = (S)maxv; e |= failbit; } else v = neg ? (S)((U)0 - m) : (S)m;
    if (eofnext_) e |= eofbit; if (e) setstate(e); }
  void getdouble_(double &v, double lim) { if (!pre_()) return; string t; bool dec = false, sci = false, mant = false; iostate e = 0; int c = sb_->sgetc();
    if (c == '-' || c == '+') { t.push_back((char)c); c = sb_->snextc(); }
    while (c != -1) { if ((unsigned)(c - '0') < 10u) { t.push_back((char)c); mant = true; } else if (c == '.' && !dec && !sci) { t.push_back('.'); dec = true; }
      else if ((c == 'e' || c == 'E') && !sci && mant) { t.push_back('e'); sci = true; c = sb_->snextc(); if (c == '+' || c == '-') { t.push_back((char)c); } else continue; } else break; c = sb_->snextc(); }
    if (c == -1) e |= eofbit; double r = 0; int n = t.empty() ? 0 : __sym_parse_double(t.data(), t.size(), &r);
    if (n == 0 || n != (int)t.size()) { v = 0; e |= failbit; } else if (r > lim) { v = lim; e |= failbit; } else if (r < -lim) { v = -lim; e |= failbit; } else v = r;
    if (e) setstate(e); }
  basic_istream &operator>>(short &v) { long l = 0; getsigned_<long, unsigned long>(l, (unsigned long)LONG_MAX); if (!(fail() && l == 0)) { if (l < SHRT_MIN) { v = SHRT_MIN; setstate(failbit); } else if (l > SHRT_MAX) { v = SHRT_MAX; setstate(failbit); } else v = (short)l; } else v = 0; return *this; }
  basic_istream &operator>>(int &v) { if (!good()) { setstate(failbit); return *this; } bool was = false; long l = 0; { eofnext_ = false; if (!pre_()) return *this; unsigned long m; bool neg, over; iostate e = 0; if (!scan_<unsigned long>(m, neg, over)) { v = 0; e |= failbit; } else if (over || m > (unsigned long)INT_MAX + (neg ? 1u : 0u)) { v = neg ? INT_MIN : INT_MAX; e |= failbit; } else v = neg ? (int)(0u - (unsigned)m) : (int)m; if (eofnext_) e |= eofbit; if (e) setstate(e); } (void)was; (void)l; return *this; }
  basic_istream &operator>>(long &v) { getsigned_<long, unsigned long>(v, (unsigned long)LONG_MAX); return *this; } basic_istream &operator>>(long long &v) { getsigned_<long long, unsigned long>(v, (unsigned long)LONG_MAX); return *this; }
  basic_istream &operator>>(unsigned short &v) { getunsigned_<unsigned short, unsigned long>(v, USHRT_MAX); return *this; } basic_istream &operator>>(unsigned &v) { getunsigned_<unsigned, unsigned long>(v, UINT_MAX); return *this; }
  basic_istream &operator>>(unsigned long &v) { getunsigned_<unsigned long, unsigned long>(v, ULONG_MAX); return *this; } basic_istream &operator>>(unsigned long long &v) { getunsigned_<unsigned long long, unsigned long>(v, ULONG_MAX); return *this; }
  basic_istream &operator>>(double &v) { getdouble_(v, DBL_MAX); return *this; } basic_istream &operator>>(float &v) { double d = v; getdouble_(d, FLT_MAX); v = (float)d; return *this; } basic_istream &operator>>(long double &v) { double d = (double)v; getdouble_(d, DBL_MAX); v = d; return *this; }
  basic_istream &operator>>(bool &v) {
    if (!(fl_ & boolalpha)) { long l = 0; if (!good()) { setstate(failbit); return *this; } eofnext_ = false; if (!pre_()) return *this; unsigned long m; bool neg, over; iostate e = 0; if (!scan_<unsigned long>(m, neg, over)) { v = false; e |= failbit; } else if (!over && m == 0) v = false; else if (!over && m == 1 && !neg) v = true; else { v = true; e |= failbit; } (void)l; if (eofnext_) e |= eofbit; if (e) setstate(e); return *this; }
    if (!pre_()) return *this; const char *T = "true", *F = "false"; bool t = true, f = true; size_t n = 0; v = false; while (true) { int c = sb_->sgetc(); if (c == -1) { setstate(eofbit | failbit); return *this; } if (t && c == T[n]) f = false; else if (f && c == F[n]) t = false; else { setstate(failbit); return *this; } n++; sb_->sbumpc(); if (t && n == 4) { v = true; if (sb_->sgetc() == -1) setstate(eofbit); return *this; } if (f && n == 5) { v = false; if (sb_->sgetc() == -1) setstate(eofbit); return *this; } } }
  basic_istream &operator>>(void *&p) { unsigned long v = 0; fmtflags o = fl_; fl_ = (fl_ & ~basefield) | hex; *this >> v; fl_ = o; p = (void *)v; return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); } basic_istream &operator>>(basic_ios<char> &(*f)(basic_ios<char> &)) { f(*this); return *this; } basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  int get() { gc_ = 0; if (!pre_(true)) return -1; int c = sb_->sbumpc(); if (c == -1) setstate(failbit | eofbit); else gc_ = 1; return c; }
  basic_istream &get(char &c) { int x = get(); if (x != -1) c = (char)x; return *this; }
  int peek() { gc_ = 0; if (!good()) return -1; int c = sb_->sgetc(); if (c == -1) setstate(eofbit); return c; }
  basic_istream &unget() { clear(rdstate() & ~eofbit); if (!good()) { setstate(failbit); return *this; } if (sb_->sungetc() == -1) setstate(badbit); return *this; } basic_istream &putback(char) { return unget(); }
  basic_istream &ignore(streamsize n = 1, int d = -1) { gc_ = 0; if (!pre_(true)) return *this; while (n == LONG_MAX || gc_ < n) { int c = sb_->sbumpc(); if (c == -1) { setstate(eofbit); break; } gc_++; if (c == d) break; } return *this; }
  basic_istream &read(char *s, streamsize n) { gc_ = 0; if (!pre_(true)) return *this; gc_ = sb_->sgetn(s, n); if (gc_ != n) setstate(eofbit | failbit); return *this; }
  basic_istream &getline(char *s, streamsize n, char d = '\n') { gc_ = 0; if (!pre_(true)) return *this; streamsize i = 0; while (true) { int c = sb_->sgetc(); if (c == -1) { setstate(i ? eofbit : eofbit | failbit); break; } if ((char)c == d) { sb_->sbumpc(); gc_++; break; } if (i + 1 >= n) { setstate(failbit); break; } s[i++] = (char)c; sb_->sbumpc(); gc_++; } if (n > 0) s[i] = 0; return *this; }
  streamsize gcount() const { return gc_; } streampos tellg() { return fail() ? -1 : (streamoff)sb_->g_; } basic_istream &seekg(streampos p) { clear(rdstate() & ~eofbit); sb_->g_ = (size_t)(streamoff)p; return *this; }
  basic_istream &seekg(streamoff o, int dir) { clear(rdstate() & ~eofbit); sb_->g_ = (size_t)(o + (dir == 0 ? 0 : dir == 1 ? (streamoff)sb_->g_ : (streamoff)sb_->b_.size())); return *this; }
  int sync() { return 0; }
protected:
  basic_istream() : gc_(0) {}
  streamsize gc_; bool eofnext_;
};
inline istream &operator>>(istream &i, char &c) { if (i.pre_()) { int x = i.rdbuf()->sbumpc(); if (x == -1) i.setstate(ios_base::failbit | ios_base::eofbit); else c = (char)x; } return i; }
inline istream &operator>>(istream &i, unsigned char &c) { char t; if (i >> t) c = (unsigned char)t; return i; } inline istream &operator>>(istream &i, signed char &c) { char t; if (i >> t) c = (signed char)t; return i; }
inline istream &operator>>(istream &i, string &s) { if (!i.pre_()) return i; s.clear(); streamsize n = i.width(); size_t lim = n > 0 ? (size_t)n : (size_t)-1; int c = i.rdbuf()->sgetc(); while (s.size() < lim && c != -1 && !__mspace(c)) { s.push_back((char)c); c = i.rdbuf()->snextc(); } i.width(0); ios_base::iostate e = 0; if (s.size() < lim && c == -1) e |= ios_base::eofbit; if (s.empty()) e |= ios_base::failbit; if (e) i.setstate(e); return i; }
inline istream &getline(istream &i, string &s, char d) { if (!i.pre_(true)) return i; s.clear(); bool any = false; ios_base::iostate e = 0; while (true) { int c = i.rdbuf()->sbumpc(); if (c == -1) { e |= ios_base::eofbit; if (!any) e |= ios_base::failbit; break; } any = true; if ((char)c == d) break; s.push_back((char)c); } if (e) i.setstate(e); return i; }
inline istream &getline(istream &i, string &s) { return getline(i, s, '\n'); } inline istream &getline(istream &&i, string &s) { return getline(i, s, '\n'); } inline istream &getline(istream &&i, string &s, char d) { return getline(i, s, d); }
template <class I, class T> inline typename enable_if<!is_lvalue_reference<I>::value && is_base_of<ios_base, I>::value, I &&>::type operator>>(I &&i, T &&v) { i >> std::forward<T>(v); return static_cast<I &&>(i); }
inline istream &ws(istream &i) { int c = i.rdbuf()->sgetc(); while (c != -1 && __mspace(c)) c = i.rdbuf()->snextc(); if (c == -1) i.setstate(ios_base::eofbit); return i; }
template <> class basic_iostream<char, char_traits<char>> : public basic_istream<char>, public basic_ostream<char> { public: explicit basic_iostream(streambuf *b) : basic_istream<char>(b), basic_ostream<char>(b) { } virtual ~basic_iostream() {} protected: basic_iostream() {} };
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char> { stringbuf buf_; public:
  explicit basic_stringstream(openmode m = in | out) : buf_(m) { init(&buf_); } explicit basic_stringstream(const string &s, openmode m = in | out) : buf_(s, m) { init(&buf_); }
  basic_stringstream(basic_stringstream &&o) : buf_(o.buf_) { init(&buf_); st_ = o.st_; fl_ = o.fl_; prec_ = o.prec_; wid_ = o.wid_; fill_ = o.fill_; }
  string str() const { return buf_.str(); } void str(const string &s) { buf_.str(s); } stringbuf *rdbuf() const { return const_cast<stringbuf *>(&buf_); } };
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> { stringbuf buf_; public:
  explicit basic_ostringstream(openmode m = out) : buf_(m | out) { init(&buf_); } explicit basic_ostringstream(const string &s, openmode m = out) : buf_(s, m | out) { init(&buf_); }
  basic_ostringstream(basic_ostringstream &&o) : buf_(o.buf_) { init(&buf_); st_ = o.st_; fl_ = o.fl_; prec_ = o.prec_; wid_ = o.wid_; fill_ = o.fill_; }
  string str() const { return buf_.str(); } void str(const string &s) { buf_.str(s); } stringbuf *rdbuf() const { return const_cast<stringbuf *>(&buf_); } };
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> { stringbuf buf_; public:
  explicit basic_istringstream(openmode m = in) : buf_(m | in) { init(&buf_); } explicit basic_istringstream(const string &s, openmode m = in) : buf_(s, m | in) { init(&buf_); }
  basic_istringstream(basic_istringstream &&o) : buf_(o.buf_) { init(&buf_); st_ = o.st_; fl_ = o.fl_; prec_ = o.prec_; wid_ = o.wid_; fill_ = o.fill_; }
  string str() const { return buf_.str(); } void str(const string &s) { buf_.str(s); } stringbuf *rdbuf() const { return const_cast<stringbuf *>(&buf_); } };
// files: nothing can be opened in the model
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> { streambuf buf_; public: basic_ifstream() { init(&buf_); } explicit basic_ifstream(const string &, openmode = in) { init(&buf_); setstate(failbit); } explicit basic_ifstream(const char *, openmode = in) { init(&buf_); setstate(failbit); } bool is_open() const { return false; } void open(const string &, openmode = in) { setstate(failbit); } void close() {} };
template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> { streambuf buf_; public: basic_ofstream() { buf_.null_ = true; init(&buf_); } explicit basic_ofstream(const string &, openmode = out) { buf_.null_ = true; init(&buf_); } explicit basic_ofstream(const char *, openmode = out) { buf_.null_ = true; init(&buf_); } bool is_open() const { return true; } void open(const string &, openmode = out) {} void close() {} };
extern ostream cout, cerr, clog; extern istream cin;
// manipulators
#define SYM_MF(N, F, M) inline ios_base &N(ios_base &b) { b.setf(ios_base::F, ios_base::M); return b; }
SYM_MF(dec, dec, basefield) SYM_MF(hex, hex, basefield) SYM_MF(oct, oct, basefield) SYM_MF(left, left, adjustfield) SYM_MF(right, right, adjustfield) SYM_MF(internal, internal, adjustfield) SYM_MF(fixed, fixed, floatfield) SYM_MF(scientific, scientific, floatfield)
#undef SYM_MF
inline ios_base &hexfloat(ios_base &b) { b.setf(ios_base::floatfield, ios_base::floatfield); return b; } inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
#define SYM_MS(N) inline ios_base &N(ios_base &b) { b.setf(ios_base::N); return b; } inline ios_base &no##N(ios_base &b) { b.unsetf(ios_base::N); return b; }
SYM_MS(boolalpha) SYM_MS(showbase) SYM_MS(showpoint) SYM_MS(showpos) SYM_MS(skipws) SYM_MS(uppercase) SYM_MS(unitbuf)
#undef SYM_MS
struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; } inline ostream &operator<<(ostream &o, _Setw s) { o.width(s.n); return o; } inline istream &operator>>(istream &i, _Setw s) { i.width(s.n); return i; }
struct _Setprecision { int n; }; inline _Setprecision setprecision(int n) { return {n}; } inline ostream &operator<<(ostream &o, _Setprecision s) { o.precision(s.n); return o; } inline istream &operator>>(istream &o, _Setprecision s) { o.precision(s.n); return o; }
struct _Setfill { char c; }; inline _Setfill setfill(char c) { return {c}; } inline ostream &operator<<(ostream &o, _Setfill s) { o.fill(s.c); return o; }
struct _Setbase { int n; }; inline _Setbase setbase(int n) { return {n}; } inline ostream &operator<<(ostream &o, _Setbase s) { o.setf(s.n == 16 ? ios_base::hex : s.n == 8 ? ios_base::oct : s.n == 10 ? ios_base::dec : 0u, ios_base::basefield); return o; } inline istream &operator>>(istream &o, _Setbase s) { o.setf(s.n == 16 ? ios_base::hex : s.n == 8 ? ios_base::oct : s.n == 10 ? ios_base::dec : 0u, ios_base::basefield); return o; }
struct _Setiosflags { unsigned f; }; inline _Setiosflags setiosflags(unsigned f) { return {f}; } inline ostream &operator<<(ostream &o, _Setiosflags s) { o.setf(s.f); return o; } inline istream &operator>>(istream &o, _Setiosflags s) { o.setf(s.f); return o; }
struct _Resetiosflags { unsigned f; }; inline _Resetiosflags resetiosflags(unsigned f) { return {f}; } inline ostream &operator<<(ostream &o, _Resetiosflags s) { o.unsetf(s.f); return o; } inline istream &operator>>(istream &o, _Resetiosflags s) { o.unsetf(s.f); return o; }
}
