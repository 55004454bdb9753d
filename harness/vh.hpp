// C++ conveniences for harnesses: random generators over the per-case PRNG
#pragma once
#include "vh.h"
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <list>
#include <algorithm>
#include <functional>
#include <memory>
#include <mstdlib/mstdlib.h>
typedef std::string S;
typedef std::vector<S> VS;
#define MB(x) ((x)?M_TRUE:M_FALSE)
static inline S vh_bytes(size_t n) { S s(n, 0); for (auto &c : s) c = (char)vh_rnd(); return s; }
static inline S vh_from(const char *alpha, size_t n) { size_t l = strlen(alpha); S s(n, 0); for (auto &c : s) c = alpha[vh_rndn(l)]; return s; }
static inline S vh_ascii(size_t n) { S s(n, 0); for (auto &c : s) c = (char)vh_range(32, 126); return s; }
// NUL-free bytes
static inline S vh_cbytes(size_t n) { S s(n, 0); for (auto &c : s) c = (char)vh_range(1, 255); return s; }
template <class T> static inline const T &vh_pick(const std::vector<T> &v) { return v[vh_rndn(v.size())]; }
static inline size_t vh_len(void) { // skewed length
	switch (vh_rndn(8)) { case 0: return 0; case 1: return 1; case 2: case 3: case 4: return vh_rndn(12); case 5: case 6: return vh_rndn(80); default: return vh_rndn(700); } }
static inline uint64_t vh_u64(void) { // boundary-heavy
	switch (vh_rndn(6)) { case 0: return vh_rndn(20); case 1: return vh_rnd() >> vh_rndn(64); case 2: return (1ULL << vh_rndn(64)) - vh_rndn(3); case 3: return UINT64_MAX - vh_rndn(4); case 4: { uint64_t p = 1; for (int k = (int)vh_rndn(20); k > 0; k--) p *= 10; return p - vh_rndn(3); } default: return (uint64_t)INT64_MAX + vh_rndn(5) - 2; } }
static inline int64_t vh_i64(void) { return (int64_t)(vh_chance(50) ? vh_u64() : 0 - vh_u64()); }
static inline S vh_fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
static inline S vh_fmt(const char *f, ...) { va_list ap; va_start(ap, f); char *b = NULL; int n = vasprintf(&b, f, ap); va_end(ap); S s(b, (size_t)n); free(b); return s; }
static inline const char *E(const S &s) { return vh_esc(s.data(), s.size()); }
// exact-size heap copy so that one-past reads hit a redzone
struct Heap { char *p; size_t n; explicit Heap(const S &s, bool z = false) { n = s.size() + (z ? 1 : 0); p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), s.size()); if (z) p[s.size()] = 0; } ~Heap() { free(p); } Heap(const Heap &) = delete; };
