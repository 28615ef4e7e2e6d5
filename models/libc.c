// libc pieces used by the code under test (compiled to bitcode; C, no libc headers on purpose)
typedef unsigned long size_t; typedef _Bool bool;
#define true 1
#define false 0
#define LONG_MAX 0x7fffffffffffffffL
#define LONG_MIN (-LONG_MAX - 1)
#define ERANGE 34
void *malloc(size_t); void *memcpy(void *, const void *, size_t); double strtod(const char *, char **);
int isspace(int), isdigit(int), isalpha(int), isxdigit(int), tolower(int);
int __cxa_guard_acquire(char *g) { return *g == 0; } void __cxa_guard_release(char *g) { *g = 1; } void __cxa_guard_abort(char *g) { *g = 0; }
// ---- strings and characters (no forking on the classification of one character)
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { size_t i = 0; while (a[i] && a[i] == b[i]) i++; return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; } return 0; }
int strcasecmp(const char *a, const char *b) { size_t i = 0; while (a[i] && tolower(a[i]) == tolower(b[i])) i++; return tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]); }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcpy(char *d, const char *s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
char *strstr(const char *a, const char *b) { size_t n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char *)a; if (!*a) return 0; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5u); } int isblank(int c) { return (c == ' ') | (c == '\t'); } int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
int isupper(int c) { return (unsigned)(c - 'A') < 26u; } int islower(int c) { return (unsigned)(c - 'a') < 26u; } int isalpha(int c) { return (unsigned)((c | 32) - 'a') < 26u; } int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((unsigned)((c | 32) - 'a') < 6u); } int isprint(int c) { return (unsigned)(c - 32) < 95u; } int isgraph(int c) { return (unsigned)(c - 33) < 94u; } int ispunct(int c) { return isgraph(c) & !isalnum(c); } int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int toupper(int c) { return c - ((int)((unsigned)(c - 'a') < 26u) << 5); } int tolower(int c) { return c + ((int)((unsigned)(c - 'A') < 26u) << 5); }
static int the_errno; int *__errno_location(void) { return &the_errno; }
static unsigned long scanul(const char *s, char **e, int base, bool *neg_, bool *over_) { const char *p = s; while (isspace((unsigned char)*p)) p++; bool neg = false, over = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit(p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long v = 0; bool any = false; for (;; p++) { unsigned d; unsigned char c = *p; if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = (c | 32) - 'a' + 10; else break; if (d >= (unsigned)base) break; any = true; if (v > (~0ul - d) / base) over = true; else v = v * base + d; }
  if (e) *e = (char *)(any ? p : s); *neg_ = neg; *over_ = over; return any ? v : 0; }
unsigned long strtoul(const char *s, char **e, int b) { bool n, o; unsigned long v = scanul(s, e, b, &n, &o); if (o) { the_errno = ERANGE; return ~0ul; } return n ? 0 - v : v; }
long strtol(const char *s, char **e, int b) { bool n, o; unsigned long v = scanul(s, e, b, &n, &o); if (o || v > (unsigned long)LONG_MAX + (n ? 1 : 0)) { the_errno = ERANGE; return n ? LONG_MIN : LONG_MAX; } return n ? (long)(0 - v) : (long)v; }
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); } unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); } unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return strtoul(s, e, b); } long long __isoc23_strtoll(const char *s, char **e, int b) { return strtol(s, e, b); } unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); } long atol(const char *s) { return strtol(s, 0, 10); } double atof(const char *s) { return strtod(s, 0); } float strtof(const char *s, char **e) { return (float)strtod(s, e); }
double modf(double x, double *ip) { double t = __builtin_trunc(x); *ip = t; double r = x - t; return __builtin_copysign(__builtin_isinf(x) ? 0.0 : r, x); }
long lround(double x) { return (long)__builtin_round(x); } long long llround(double x) { return (long long)__builtin_round(x); } long lrint(double x) { return (long)__builtin_rint(x); }
double fmax(double a, double b) { return a > b ? a : b; } double fmin(double a, double b) { return a < b ? a : b; }
char *strtok_r(char *s, const char *d, char **p) { if (!s) s = *p; s += strspn(s, d); if (!*s) { *p = s; return 0; } char *e = s + strcspn(s, d); if (*e) { *e = 0; e++; } *p = e; return s; } static char *tok_; char *strtok(char *s, const char *d) { return strtok_r(s, d, &tok_); }
typedef struct { int quot, rem; } div_t_; typedef struct { long quot, rem; } ldiv_t_; div_t_ div(int a, int b) { div_t_ r = {a / b, a % b}; return r; } ldiv_t_ ldiv(long a, long b) { ldiv_t_ r = {a / b, a % b}; return r; } ldiv_t_ lldiv(long a, long b) { ldiv_t_ r = {a / b, a % b}; return r; }
double frexp(double x, int *e) { unsigned long b; memcpy(&b, &x, 8); int k = (int)(b >> 52) & 2047; *e = 0; if (k == 2047 || x == 0) return x; if (k == 0) { x *= 18014398509481984.0; memcpy(&b, &x, 8); k = ((int)(b >> 52) & 2047) - 54; } *e = k - 1022; b = (b & 0x800ffffffffffffful) | 0x3fe0000000000000ul; memcpy(&x, &b, 8); return x; }
// ---- printf family (the text of a double comes from the engine, as in the stream model)
#include <stdarg.h>
int __sym_fmt_double(char *buf, double v, int fmt, int prec, int flags);
typedef struct { char *p; size_t n, k; } Out_;
static void put1(Out_ *o, char c) { if (o->k + 1 < o->n) o->p[o->k] = c; o->k++; }
static void putn(Out_ *o, const char *s, size_t n) { for (size_t i = 0; i < n; i++) put1(o, s[i]); }
static void field(Out_ *o, const char *s, size_t n, size_t pre, long w, int left, int zero) { size_t pad = w > (long)n ? (size_t)w - n : 0; if (left) { putn(o, s, n); while (pad--) put1(o, ' '); } else if (zero) { putn(o, s, pre); while (pad--) put1(o, '0'); putn(o, s + pre, n - pre); } else { while (pad--) put1(o, ' '); putn(o, s, n); } }
static int digits32(char *b, unsigned v) { static const unsigned P[10] = {1u, 10u, 100u, 1000u, 10000u, 100000u, 1000000u, 10000000u, 100000000u, 1000000000u}; int k = 1, n = 0; while (k < 10 && v >= P[k]) k++; for (int i = k - 1; i >= 0; i--) b[n++] = (char)('0' + (v / P[i]) % 10u); return n; }
static int digits64(char *b, unsigned long v) { static const unsigned long P[20] = {1ul, 10ul, 100ul, 1000ul, 10000ul, 100000ul, 1000000ul, 10000000ul, 100000000ul, 1000000000ul, 10000000000ul, 100000000000ul, 1000000000000ul, 10000000000000ul, 100000000000000ul, 1000000000000000ul, 10000000000000000ul, 100000000000000000ul, 1000000000000000000ul, 10000000000000000000ul}; int k = 1, n = 0; while (k < 20 && v >= P[k]) k++; for (int i = k - 1; i >= 0; i--) b[n++] = (char)('0' + (v / P[i]) % 10ul); return n; }
int vsnprintf(char *p, size_t n, const char *f, va_list ap) { Out_ O = {p, n, 0}, *o = &O;
  for (; *f; f++) { if (*f != '%') { put1(o, *f); continue; } f++; int left = 0, plus = 0, sp = 0, alt = 0, zero = 0; long w = 0, prec = -1; int lng = 0;
    for (;; f++) { if (*f == '-') left = 1; else if (*f == '+') plus = 1; else if (*f == ' ') sp = 1; else if (*f == '#') alt = 1; else if (*f == '0') zero = 1; else break; }
    if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (isdigit((unsigned char)*f)) w = w * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0'); }
    for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') lng = 1; else if (*f == 'h') lng--; else break; }
    char c = *f; if (c == '%') { put1(o, '%'); continue; } if (!c) break;
    if (c == 'c') { char b = (char)va_arg(ap, int); field(o, &b, 1, 0, w, left, 0); continue; }
    if (c == 's') { const char *s = va_arg(ap, const char *); if (!s) s = "(null)"; size_t k = 0; while ((prec < 0 || k < (size_t)prec) && s[k]) k++; field(o, s, k, 0, w, left, 0); continue; }
    if (c == 'n') { *va_arg(ap, int *) = (int)o->k; continue; }
    int lc = c | 32; if (lc == 'f' || lc == 'e' || lc == 'g' || lc == 'a') { double v = va_arg(ap, double); char b[520]; b[0] = 0; int k = __sym_fmt_double(b, v, lc == 'g' ? 0 : lc == 'f' ? 1 : lc == 'e' ? 2 : 3, prec < 0 ? 6 : (int)prec, (plus ? 1 : 0) | (alt ? 2 : 0) | (c != lc ? 4 : 0)); field(o, b, k, b[0] == '-' || b[0] == '+', w, left, zero && !left); continue; }
    char d[72]; int m = 0, pre = 0; char t[200]; int neg = 0; unsigned long u; int isp = c == 'p'; if (isp) { lng = 1; alt = 1; c = 'x'; }
    if (c == 'd' || c == 'i') { if (lng > 0) { long v = va_arg(ap, long); neg = v < 0; m = digits64(d, neg ? 0ul - (unsigned long)v : (unsigned long)v); u = (unsigned long)v; } else { int v = va_arg(ap, int); if (lng == -1) v = (short)v; if (lng <= -2) v = (signed char)v; neg = v < 0; m = digits32(d, neg ? 0u - (unsigned)v : (unsigned)v); u = (unsigned long)(long)v; } }
    else { if (lng > 0) u = va_arg(ap, unsigned long); else { unsigned v = va_arg(ap, unsigned); if (lng == -1) v = (unsigned short)v; if (lng <= -2) v = (unsigned char)v; u = v; }
      if (c == 'u') m = lng > 0 ? digits64(d, u) : digits32(d, (unsigned)u); else if (c == 'o') { int k = 1, mx = lng > 0 ? 22 : 11; while (k < mx && (u >> (3 * k)) != 0) k++; for (int i = k - 1; i >= 0; i--) d[m++] = (char)('0' + ((u >> (3 * i)) & 7)); } else { int k = 1, mx = lng > 0 ? 16 : 8, gap = c == 'X' ? 7 : 39; while (k < mx && (u >> (4 * k)) != 0) k++; for (int i = k - 1; i >= 0; i--) { int x = (int)((u >> (4 * i)) & 15); d[m++] = (char)('0' + x + ((x > 9) ? gap : 0)); } } }
    int i = 0; if (neg) t[i++] = '-'; else if ((c == 'd' || c == 'i') && plus) t[i++] = '+'; else if ((c == 'd' || c == 'i') && sp) t[i++] = ' ';
    if (alt && (c == 'x' || c == 'X') && u != 0) { t[i++] = '0'; t[i++] = c; } pre = i;
    if (prec >= 0) zero = 0; if (prec == 0 && u == 0) m = 0; long z = prec > m ? prec - m : 0; if (z > 100) z = 100; if (alt && c == 'o' && z == 0 && (m == 0 || u != 0)) z = 1; while (z-- > 0) t[i++] = '0'; for (int j = 0; j < m; j++) t[i++] = d[j]; field(o, t, i, pre, w, left, zero && !left); }
  if (n) p[O.k < n ? O.k : n - 1] = 0; return (int)O.k; }
int __vsnprintf_chk(char *p, size_t n, int g, size_t s, const char *f, va_list ap) { return vsnprintf(p, n, f, ap); }
int vsprintf(char *p, const char *f, va_list ap) { return vsnprintf(p, (size_t)1 << 40, f, ap); } int __vsprintf_chk(char *p, int g, size_t s, const char *f, va_list ap) { return vsnprintf(p, (size_t)1 << 40, f, ap); }
#define VA(CALL) va_list ap; va_start(ap, f); int r = CALL; va_end(ap); return r;
int snprintf(char *p, size_t n, const char *f, ...) { VA(vsnprintf(p, n, f, ap)) } int __snprintf_chk(char *p, size_t n, int g, size_t s, const char *f, ...) { VA(vsnprintf(p, n, f, ap)) }
int sprintf(char *p, const char *f, ...) { VA(vsnprintf(p, (size_t)1 << 40, f, ap)) } int __sprintf_chk(char *p, int g, size_t s, const char *f, ...) { VA(vsnprintf(p, (size_t)1 << 40, f, ap)) }
int vasprintf(char **q, const char *f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(0, 0, f, c); va_end(c); *q = (char *)malloc(n + 1); return vsnprintf(*q, n + 1, f, ap); } int __vasprintf_chk(char **q, int g, const char *f, va_list ap) { return vasprintf(q, f, ap); }
int asprintf(char **q, const char *f, ...) { VA(vasprintf(q, f, ap)) } int __asprintf_chk(char **q, int g, const char *f, ...) { VA(vasprintf(q, f, ap)) }
