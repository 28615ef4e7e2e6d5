// Harness API.  The same harness is (a) compiled to bitcode and executed symbolically and
// (b) compiled natively against the real library, where draws come from a recorded log.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <string>
#include <vector>
extern "C" {
uint64_t __sym_draw(int bits, const char *name);
uint64_t __sym_choice(uint64_t n);
uint64_t __sym_fork(uint64_t v);
int __sym_issym(uint64_t v);
void __sym_assume(int c);
void __sym_assert(int c, const char *msg);
void __sym_fail(const char *msg);
void __sym_observe(uint64_t v);
uint64_t __sym_param(uint64_t i);
void __sym_cover(const char *name);
int __sym_native(void);
uint64_t __sym_heap_live(void);
void __sym_trace(const char *m, uint64_t a, uint64_t b, uint64_t c);
void __sym_end(void) __attribute__((noreturn));
}
static inline uint8_t sym_u8() { return (uint8_t)__sym_draw(8, ""); }
static inline uint32_t sym_u32() { return (uint32_t)__sym_draw(32, ""); }
static inline uint64_t sym_u64() { return __sym_draw(64, ""); }
static inline bool sym_bool() { return (__sym_draw(8, "") & 1) != 0; }
static inline uint32_t sym_choice(uint32_t n) { return (uint32_t)__sym_choice(n); }   // forks
static inline void sym_assume(bool c) { __sym_assume(c); }
static inline void sym_assert(bool c, const char *m) { __sym_assert(c, m); }
static inline uint64_t sym_param(int i) { return __sym_param(i); }
static inline void sym_cover(const char *n) { __sym_cover(n); }
static inline void sym_observe(uint64_t v) { __sym_observe(v); }
static inline void sym_observe(const std::string &s) { __sym_observe(s.size()); for (size_t i = 0; i < s.size(); i++) __sym_observe((unsigned char)s[i]); }
static inline std::string sym_string(size_t n) { std::string s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = (char)sym_u8(); return s; }
// a symbolic character out of an alphabet
static inline char sym_char_in(const char *alpha, size_t n) { uint8_t c = sym_u8(); bool in = false; for (size_t i = 0; i < n; i++) in |= (c == (uint8_t)alpha[i]); sym_assume(in); return (char)c; }
static inline std::string sym_string_in(size_t n, const char *alpha) { size_t k = strlen(alpha); if (k == 10 && !memcmp(alpha, "0123456789", 10)) { std::string s(n, '0'); for (size_t i = 0; i < n; i++) s[i] = (char)('0' + sym_u8() % 10u); return s; } std::string s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = sym_char_in(alpha, k); return s; }
// equality without forking (sizes are concrete on every path)
static inline bool sym_eq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)a[i] ^ (unsigned char)b[i]; return d == 0; }
static inline void sym_assert_eq(const std::string &a, const std::string &b, const char *m) { sym_assert(sym_eq(a, b), m); }
