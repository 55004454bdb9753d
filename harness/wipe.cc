// free()/malloc()/realloc() of the library go through here (macro renamed at compile time): every released block must be wiped.
#include "vh.hpp"
#include <malloc.h>
#include <unordered_map>
#include <mutex>
static std::mutex wm; static std::unordered_map<void *, size_t> *W; static uint64_t nfree, nbytes, nnull; int wipe_fail_next;
static void flush_counts(void) { if (nfree) vh_count("wiped_blocks", nfree); if (nbytes) vh_count("wiped_bytes", nbytes); nfree = nbytes = 0; }
extern "C" void *vhw_malloc(size_t n) { if (wipe_fail_next > 0) { wipe_fail_next--; return NULL; } void *p = malloc(n); if (!p) return p; std::lock_guard<std::mutex> g(wm); if (!W) W = new std::unordered_map<void *, size_t>; (*W)[p] = n; return p; }
static bool judge(void *p, const char *how) { size_t n = 0; { std::lock_guard<std::mutex> g(wm); if (!W) return true; auto it = W->find(p); if (it == W->end()) return true; n = it->second; W->erase(it); nfree++; nbytes += n; if (nfree > 20000) flush_counts(); }
	const unsigned char *b = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (b[i] != b[0] || (b[0] != 0 && b[0] != 0xff)) { vh_viol(how, "block of %zu bytes (header included) released with unwiped contents at offset %zu: ...%s", n, i, vh_esc(b + i, std::min<size_t>(n - i, 24))); return false; } return true; }
extern "C" void vhw_free(void *p) { if (!p) { nnull++; return; } judge(p, "wipe:free"); free(p); }
extern "C" void *vhw_calloc(size_t a, size_t b) { void *p = vhw_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" void *vhw_realloc(void *p, size_t n) { if (!p) return vhw_malloc(n); size_t o; { std::lock_guard<std::mutex> g(wm); o = W && W->count(p) ? (*W)[p] : malloc_usable_size(p); } void *q = vhw_malloc(n); memcpy(q, p, std::min(o, n)); judge(p, "wipe:realloc"); free(p); return q; }
void wipe_flush(void) { std::lock_guard<std::mutex> g(wm); flush_counts(); }
__attribute__((destructor)) static void wd(void) { delete W; W = NULL; }
