// Replaces the ThreadSanitizer runtime: instrumented accesses go to the controlled scheduler.
#include "mcsched.h"
#include <string.h>
#define RET __builtin_return_address(0)
typedef __int128 i128;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_read(void** p) { sched::on_access(p, 8, false, false, RET); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) sched::on_access(p, 8, true, false, RET); }
#define RW(n) \
	void __tsan_read##n(void* p) { sched::on_access(p, n, false, false, RET); } \
	void __tsan_write##n(void* p) { sched::on_access(p, n, true, false, RET); } \
	void __tsan_volatile_read##n(void* p) { sched::on_access(p, n, false, false, RET); } \
	void __tsan_volatile_write##n(void* p) { sched::on_access(p, n, true, false, RET); } \
	void __tsan_read_write##n(void* p) { sched::on_access(p, n, false, false, RET); sched::on_access(p, n, true, false, RET); } \
	void __tsan_unaligned_read##n(void* p) { sched::on_access(p, n, false, false, RET); } \
	void __tsan_unaligned_write##n(void* p) { sched::on_access(p, n, true, false, RET); } \
	void __tsan_unaligned_volatile_read##n(void* p) { sched::on_access(p, n, false, false, RET); } \
	void __tsan_unaligned_volatile_write##n(void* p) { sched::on_access(p, n, true, false, RET); } \
	void __tsan_unaligned_read_write##n(void* p) { sched::on_access(p, n, false, false, RET); sched::on_access(p, n, true, false, RET); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { if (n) sched::on_access(p, n, false, false, RET); }
void __tsan_write_range(void* p, unsigned long n) { if (n) sched::on_access(p, n, true, false, RET); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { if (n) { sched::on_access(s, n, false, false, RET); sched::on_access(d, n, true, false, RET); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { if (n) { sched::on_access(s, n, false, false, RET); sched::on_access(d, n, true, false, RET); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { if (n) sched::on_access(d, n, true, false, RET); return memset(d, c, n); }
#define AT(n, T) \
	T __tsan_atomic##n##_load(const volatile T* p, int) { sched::on_access((const void*)p, n / 8, false, true, RET); return *p; } \
	void __tsan_atomic##n##_store(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); *p = v; } \
	T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; *p = v; return o; } \
	T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; *p = o + v; return o; } \
	T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; *p = o - v; return o; } \
	T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; *p = o & v; return o; } \
	T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; *p = o | v; return o; } \
	T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; *p = o ^ v; return o; } \
	T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; *p = ~(o & v); return o; } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { sched::on_access((const void*)p, n / 8, true, true, RET); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int a, int b) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, a, b); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { sched::on_access((const void*)p, n / 8, true, true, RET); T o = *p; if (o == e) *p = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
