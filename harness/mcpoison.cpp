// Fresh memory is filled with a pattern and small freed blocks with another, so that code reading what it never wrote,
// or what it gave back, misbehaves the same way every time. Blocks above the threshold come zeroed from mmap.
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include "mcsched.h"
static const size_t BIG = 256 * 1024, SMALL = 4096;
extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
void* __real_calloc(size_t, size_t);
unsigned char mc_fill = 0xA5;          // what fresh memory is filled with
long long mc_live = 0, mc_blocks = 0;  // bytes and blocks allocated and not given back
long long mc_allocs = 0;               // allocations so far
static bool ready = (mallopt(M_MMAP_THRESHOLD, BIG), mallopt(M_ARENA_MAX, 1), true);
void* __wrap_malloc(size_t n) {
	void* p = __real_malloc(n);
	if (p) { size_t u = malloc_usable_size(p); mc_live += u; ++mc_blocks; ++mc_allocs; if (u < BIG) memset(p, mc_fill, u); sched::on_alloc(p, u); }
	return p;
}
void* __wrap_calloc(size_t n, size_t m) {
	void* p = __real_calloc(n, m);
	if (p) { size_t u = malloc_usable_size(p); mc_live += u; ++mc_blocks; ++mc_allocs; sched::on_alloc(p, u); }
	return p;
}
void __wrap_free(void* p) {
	if (!p) return;
	size_t u = malloc_usable_size(p);
	mc_live -= u; --mc_blocks;
	sched::on_free(p, u);
	memset(p, 0xDD, u < SMALL ? u : SMALL);
	__real_free(p);
}
void* __wrap_realloc(void* p, size_t n) {
	size_t u = p ? malloc_usable_size(p) : 0;
	void* q = __real_realloc(p, n);
	if (p && (q || !n)) { mc_live -= u; --mc_blocks; }
	if (q) { size_t v = malloc_usable_size(q); mc_live += v; ++mc_blocks; ++mc_allocs; if (q != p) sched::on_alloc(q, v); if (v > u && v < BIG) memset((char*)q + u, mc_fill, v - u); }
	return q;
}
}
static void* get(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
