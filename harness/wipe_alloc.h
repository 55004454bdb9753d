/* force-included ahead of the library's sources: its allocator calls go to the monitored allocator of wipe.cc */
#include <stddef.h>
extern void *malloc(size_t) __asm__("vhw_malloc");
extern void free(void *) __asm__("vhw_free");
extern void *calloc(size_t, size_t) __asm__("vhw_calloc");
extern void *realloc(void *, size_t) __asm__("vhw_realloc");
